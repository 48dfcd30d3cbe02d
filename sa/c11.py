"""Character class tables. The static range tables are read from the program's syntax tree and compared, code point for code
point, with the Unicode data files of the repository (Scripts.txt, Blocks.txt, UnicodeData.txt), the derived classes with their
definitions from general categories, and the POSIX tables with POSIX. Which name leads to which table is obtained by abstract
evaluation of the constructors of the two table maps (constant propagation through calls), and the ASCII bit masks of the pattern parser by
abstract evaluation of the class escapes with a symbolic escape character. The loops that consume tables must stop at the
terminator and not at a range that starts at zero."""
from core import *
from ev import *

UDIR = os.path.join(REPO, "unicode")

def rset(l):
    s = set()
    for a, b in l: s.update(range(a, b + 1))
    return s

def rng(s):
    out = []
    for x in sorted(s):
        if out and out[-1][1] == x - 1: out[-1][1] = x
        else: out.append([x, x])
    return out

def data():
    S = {}; B = {}; U = {}
    for l in open(os.path.join(UDIR, "Scripts.txt"), encoding="utf-8"):
        m = re.match(r"([0-9A-F]+)(?:\.\.([0-9A-F]+))?\s*; (\w+) # (..)", l)
        if m:
            r = range(int(m[1], 16), int(m[2] or m[1], 16) + 1)
            S.setdefault(m[3], set()).update(r); S.setdefault(m[4], set()).update(r)
    for l in open(os.path.join(UDIR, "Blocks.txt"), encoding="utf-8"):
        m = re.match(r"([0-9A-F]+)\.\.([0-9A-F]+); (.*?)\s*$", l)
        if m: B["Is" + m[3].replace(" ", "")] = set(range(int(m[1], 16), int(m[2], 16) + 1))
    first = None
    for l in open(os.path.join(UDIR, "UnicodeData.txt"), encoding="utf-8"):
        f = l.split(";")
        if len(f) < 3: continue
        c = int(f[0], 16)
        if f[1].endswith(", First>"): first = c; continue
        U.setdefault(f[2], set()).update(range(first if f[1].endswith(", Last>") else c, c + 1)); first = None
    if len(S) < 150 or len(B) < 250 or len(U) < 25: raise AnalysisError("Unicode data files not understood")
    D = dict(S)
    g = lambda *n: set().union(*(S[x] for x in n))
    D["C"] = g("Cc", "Cf"); D["L"] = g("L&", "Lm", "Lo"); D["M"] = g("Mn", "Mc", "Me"); D["N"] = g("Nd", "Nl", "No")
    D["P"] = g("Pd", "Ps", "Pe", "Pi", "Pf", "Pc", "Po"); D["S"] = g("Sm", "Sc", "Sk", "So"); D["Z"] = g("Zs", "Zl", "Zp")
    for x in ("Ll", "Lu", "Lt"): D[x] = U[x]
    D["ASCII"] = set(range(128)); D["Unicode"] = set(range(0x110000)) - set(range(0xD800, 0xE000)); D["Non_ASCII_Unicode"] = D["Unicode"] - D["ASCII"]
    D["Space"] = D["Zs"] | set(range(9, 14)); D["Word"] = D["L"] | D["Nd"] | D["Pc"]
    ign = set(range(0, 9)) | set(range(0xE, 0x1C)) | set(range(0x7F, 0xA0)); D["IdentifierIgnorable"] = ign
    st = D["L"] | D["Nl"]; part = st | D["Pc"] | D["Mn"] | D["Mc"] | D["Nd"]
    D["UnicodeIdentifierStart"] = st; D["UnicodeIdentifierPart"] = part | D["Cf"] | ign
    D["JavaIdentifierStart"] = st | D["Sc"] | D["Pc"]; D["JavaIdentifierPart"] = part | D["Sc"] | D["Cf"] | ign
    D["CsIdentifierStart"] = st | D["Pc"] | {64}; D["CsIdentifierPart"] = part | D["Cf"]
    D["PythonIdentifierStart"] = st | {0x1885, 0x1886, 0x2118, 0x212E, 0x309B, 0x309C}
    D["PythonIdentifierPart"] = part | {0xB7, 0x387, 0x19DA} | set(range(0x1369, 0x1372))
    D.update(B)
    for a, n in ALIAS.items(): D[a] = D[n]
    return D

ALIAS = {"Other": "C", "Letter": "L", "Mark": "M", "Number": "N", "Punctuation": "P", "Symbol": "S", "Separator": "Z", "Lowercase_Letter": "Ll",
         "Uppercase_Letter": "Lu", "Titlecase_Letter": "Lt", "Modifier_Letter": "Lm", "Other_Letter": "Lo", "Non_Spacing_Mark": "Mn",
         "Spacing_Combining_Mark": "Mc", "Enclosing_Mark": "Me", "Space_Separator": "Zs", "Line_Separator": "Zl", "Paragraph_Separator": "Zp",
         "Math_Symbol": "Sm", "Currency_Symbol": "Sc", "Modifier_Symbol": "Sk", "Other_Symbol": "So", "Decimal_Digit_Number": "Nd",
         "Letter_Number": "Nl", "Other_Number": "No", "Dash_Punctuation": "Pd", "Open_Punctuation": "Ps", "Close_Punctuation": "Pe",
         "Initial_Punctuation": "Pi", "Final_Punctuation": "Pf", "Connector_Punctuation": "Pc", "Other_Punctuation": "Po", "Control": "Cc", "Format": "Cf",
         "d": "Nd", "l": "Ll", "u": "Lu", "s": "Space", "w": "Word"}

def posixsets():
    r = lambda s: set().union(*(set(range(ord(a), ord(b) + 1)) for a, b in s))
    D = {"Alnum": r(["09", "AZ", "az"]), "Alpha": r(["AZ", "az"]), "ASCII": set(range(128)), "Blank": {9, 32}, "Cntrl": set(range(32)) | {127}, "Digit": r(["09"]),
         "Graph": r(["!~"]), "Lower": r(["az"]), "Print": r([" ~"]), "Punct": r(["!/", ":@", "[`", "{~"]), "Space": set(range(9, 14)) | {32}, "Upper": r(["AZ"]),
         "Word": r(["09", "AZ", "az", "__"]), "XDigit": r(["09", "AF", "af"])}
    return D
SHORT = {"h": "Blank", "d": "Digit", "l": "Lower", "s": "Space", "u": "Upper", "w": "Word", "x": "XDigit"}

def names(P, fn):
    """name -> table (path of the global) as established by a table constructor"""
    def hcall(fr, st, i, fid, obj, args):
        if "::operator[](" in fid and fid.startswith("std::map<const char *, const int *"):
            k = fr.val(st, args[0])
            if isinstance(k, Ptr) and k.path[0] == "str" and k.off == 0: return ("map", k.path[1])
            raise AnalysisError("name of a class is not a constant at " + fr.fn.at(i))
        return None
    E = Ev(P, call=hcall, limit=10 ** 7); E.strict = True; st = State()
    res = E.run(fn, st, [], ("tables",))
    if len(res) != 1: raise AnalysisError("table constructor " + fn.id + " has several outcomes")
    out = {}
    for q, v in res[0][0].mem.items():
        if q[0] == "map": out[q[1]] = v
    return out, E.fns

def table(P, v):
    if isinstance(v, Ptr) and isinstance(v.off, int) and len(v.path) == 1:
        g = Ev(P).glob(v.path[0])
        if g and isinstance(g.get("val"), list): return g, g["val"][v.off:]
    return None, None

def check_tables(R, P, which, fn, D):
    m, fns = names(P, fn); seen = set(); nf = {}
    for n in sorted(D):
        key = which + " " + n
        if not R.check("NAME", n in m, key, fn.where(), "class name %s leads to no table" % n): continue
        g, v = table(P, m[n])
        if not R.check("NAME", v is not None, key + " table", fn.where(), "class name %s does not lead to a constant table (%s)" % (n, m[n])): continue
        where = "%s:%d" % (os.path.relpath(g["file"], REPO), g["line"])
        pairs = []; ended = False
        for i in range(0, len(v) - 1, 2):
            if v[i + 1] == 0: ended = v[i] == 0; break
            pairs.append((v[i], v[i + 1]))
        if m[n] not in seen:
            seen.add(m[n])
            bad = [p for k, p in enumerate(pairs) if not (0 <= p[0] <= p[1] <= 0x10FFFF) or k and p[0] <= pairs[k - 1][1]]
            R.check("FORM", ended and len(v) == 2 * len(pairs) + 2, key + " end", where, "table %s is not terminated by a pair of zeros at its end" % g["n"])
            R.check("FORM", not bad, key + " order", where, "table %s has a range out of order: %s" % (g["n"], bad[:2]))
        if all(0 <= a <= b <= 0x110000 for a, b in pairs):
            s = rset(pairs); d = s ^ D[n]
            R.check("TABLE", not d, key, where, "class %s (table %s) differs from its definition at %s" % (n, g["n"], ", ".join("%X-%X" % tuple(x) for x in rng(d)[:4])))
    for n in sorted(set(m) - set(D)):
        v = m[n]
        R.bad("NAME", which + " extra " + n, fn.where(), "class name %s is in no data file or definition" % n)
    return len(m)

def pattern_classes(R, P):
    """class escapes of the pattern parser, with a symbolic escape character"""
    PS = posixsets(); f = [x for x in P.fns.values() if x.cls == "reflex::Pattern" and x.name == "parse_esc"]
    if len(f) != 1: raise AnalysisError("parse_esc not found")
    f = f[0]
    escs = {}
    for s, n in SHORT.items(): escs[ord(s)] = PS[n]; escs[ord(s.upper())] = set(range(256)) - PS[n]
    escs[ord("X")] = set(range(256)) - PS["XDigit"]
    def hcall(fr, st, i, fid, obj, args):
        b = fid.split("(")[0].split("::")[-1]
        if fid.startswith("reflex::Pattern::at("):
            k = fr.val(st, args[0]); k = k.const() if isinstance(k, BV) else None
            if k is None: return BV([None] * 32, 0)
            if k != 1: st.mem.setdefault(("esc", k), E.var(st, "x%d" % k, 0, 255, "int"))
            return conv(E.refresh(st, st.mem[("esc", k) if k != 1 else ("esc",)]), 32, 0)
        if fid.startswith("reflex::Pattern::eq_at("):
            v = fr.val(st, args[-1])
            if not isinstance(v, Ptr): v = fr.val(st, args[0])
            t = st.copy(); t.facts[("named",)] = v
            return [(t, K(1, 1, 0)), (st, K(0, 1, 0))]
        if fid.startswith("reflex::Pattern::error("): return []
        if b in ("isxdigit", "isdigit", "isalpha"): return [(st.copy(), K(1)), (st, K(0))]
        if b == "strlen": return BV([None] * 64, 0)
        if b in ("strchr", "__builtin_strchr"):
            s = fr.val(st, args[0]); c = conv(fr.val(st, args[1]), 32, 1)
            if not (isinstance(s, Ptr) and isinstance(s.off, int)): raise AnalysisError("strchr in an unknown string at " + fr.fn.at(i))
            txt = s.path[1] if s.path[0] == "str" else None
            if txt is None:
                g = E.glob(s.path[0]); txt = g["val"] if g else None
                if isinstance(txt, list): txt = "".join(map(chr, txt)).rstrip("\0")
            if not isinstance(txt, str): raise AnalysisError("strchr in an unknown string at " + fr.fn.at(i))
            out = []; rest = [st]; done = set()
            for k, ch in enumerate(txt + "\0"):
                if ch in done: continue
                done.add(ch); nr = []
                for x in rest:
                    for t, y in fr.cmp(x, E.refresh(x, c), "==", ord(ch)):
                        if t: out.append((y, Ptr(s.path, s.off + k)))
                        else: nr.append(y)
                rest = nr
            return out + [(x, K(0, 64, 0)) for x in rest]
        return None
    seen = set()
    for lo, hi in [(33, 98), (100, 255)]:            # \c takes the character after it
        E = Ev(P, call=hcall, limit=10 ** 7); st = State(); v = E.var(st, "e", lo, hi, "int")
        st.mem[("esc",)] = v; st.mem[("loc",)] = K(0, 32, 0)
        for k in range(5): st.mem[("chars", "b", k)] = K(0, 64, 0)
        for s, r in E.run(f, st, [("loc",), Ptr(("chars",), "obj")], ("pat",)):
            a, b = s.rng["e"]
            w = [s.mem.get(("chars", "b", k)) for k in range(5)]
            nm = s.facts.get(("named",))
            const = all(isinstance(x, BV) and x.const() is not None for x in w)
            got = {64 * k + j for k in range(5) for j in range(64) if const and w[k].const() >> j & 1} if const else None
            if a == b and chr(a) in "pP" and nm is not None:
                n = nm.path[1] if nm.path[0] == "str" else None
                want = PS.get(n)
                if want is not None and a == ord("P"): want = set(range(256)) - want
                if R.check("POSIX", want is not None and got == want, "\\%c{%s}" % (a, n), f.where(), "\\%c{%s} gives the characters %s" % (a, n, rng(got or ())[:6])): seen.add((chr(a), n))
            elif a == b and chr(a) in "xu" and not (isinstance(r, BV) and r.const() is not None and r.const() > 255): continue       # a code in digits
            elif a == b and a in escs:
                if R.check("POSIX", got == escs[a], "\\%c" % a, f.where(), "\\%c gives the characters %s, expected %s" % (a, rng(got or ())[:6], rng(escs[a])[:6])): seen.add(chr(a))
            elif a == b and chr(a) == "N":
                R.check("POSIX", got == set(range(256)) - {10}, "\\N", f.where(), "\\N gives the characters %s" % rng(got or ())[:4]); seen.add("N")
    for e in escs: R.check("POSIX", chr(e) in seen, "escape %c" % e, f.where(), "class escape \\%c is not recognised" % e)
    for n in PS:
        for p in "pP": R.check("POSIX", (p, n) in seen, "escape %c{%s}" % (p, n), f.where(), "class \\%c{%s} is not recognised" % (p, n))
    # bracket classes: every name of the list is tried and gives its own index
    cls = [g for k, g in P.globals.items() if isinstance(g.get("val"), list) and set(PS) <= set(x for x in g["val"] if isinstance(x, str))]
    if len(cls) != 1: raise AnalysisError("list of POSIX class names not found")
    ln = len(cls[0]["val"])
    R.check("POSIX", ln == len(PS) and set(cls[0]["val"]) == set(PS), "class list", "lib/pattern.cpp:%d" % cls[0]["line"], "list of class names is not the POSIX one")
    nb = 0
    for g in P.fns.values():
        if g.cls != "reflex::Pattern" or g.name == f.name: continue
        users = [i for i, nd in enumerate(g.nodes) if nd["k"] in ("CallExpr", "CXXMemberCallExpr") and nd.get("fn", "").startswith("reflex::Pattern::posix(")]
        for u in users:
            x = g.path(g.c(u)[1])
            for i, nd in enumerate(g.nodes):
                if nd["k"] == "BinaryOperator" and nd["op"] in ("<", ">=", "!=", "==") and x is not None and g.path(nd["c"][0]) == x and g.cv(nd["c"][1]) is not None:
                    nb += 1
                    R.check("POSIX", g.cv(nd["c"][1]) == ln, "%s bound %d" % (g.name, nb), g.at(i), "search of the class list stops at %d of %d names" % (g.cv(nd["c"][1]), ln))
    if nb < 2: raise AnalysisError("search of bracket classes not found")

def consumers(R, P):
    n = 0
    for f in P.fns.values():
        roots = {}
        for i, nd in enumerate(f.nodes):
            if nd["k"] in ("CallExpr",) and re.match(r"reflex::(Unicode|Posix)::range\(", nd.get("fn", "")): roots[i] = 1
        if not roots: continue
        lv = set()
        for i, nd in enumerate(f.nodes):      # pointers to ranges
            if nd["k"] == "DeclStmt":
                for d in nd["decls"]:
                    if d["t"].replace("const ", "").strip() in ("int *", "int *const") and "int" in d["t"]: lv.add(d["d"])
        for i, nd in enumerate(f.nodes):
            if nd["k"] not in ("ForStmt", "WhileStmt"): continue
            for j in conds(f, i):
                for x in f.walk(j):
                    q = None
                    if f.k(x) == "ArraySubscriptExpr": q = (f.path(f.c(x)[0]), f.cv(f.c(x)[1]))
                    elif f.k(x) == "UnaryOperator" and f.n(x)["op"] == "*":
                        y = f.strip(f.c(x)[0])
                        if f.k(y) == "BinaryOperator" and f.n(y)["op"] == "+": q = (f.path(f.c(y)[0]), f.cv(f.c(y)[1]))
                        else: q = (f.path(y), 0)
                    if q and q[0] and len(q[0]) == 1 and q[0][0] in lv:
                        n += 1
                        R.check("END", q[1] == 1, "%s %s" % (f.id, f.text(j)), f.at(x), "the loop over a table ends at %s, which is zero for a range that starts at U+0000" % f.text(x))
    return n

def conds(f, i):
    """condition expressions of a loop statement, from the control-flow graph"""
    sub = set(f.walk(i))
    own = set()
    for b in f.cfg.values():
        if b.get("term") == i and "cond" in b: own.add(b["cond"])
    if own: return own
    return [c for c in f.c(i) if c is not None and c >= 0 and f.n(c).get("t") in ("bool", "int") and f.k(c) != "CompoundStmt"][:1]

def lookup(R, P):
    """the order of the maps is that of their names, and a lookup gives the table found"""
    l = [f for f in P.fns.values() if f.name == "operator()" and re.fullmatch(r"reflex::(Posix|Unicode)::Tables::\w+", f.cls or "")]
    if not l: raise AnalysisError("order of names of tables not found")
    for f in l:
        ns = f.cls; seen = []
        def hcall(fr, st, i, fid, obj, args):
            if fid.split("(")[0].split("::")[-1] in ("strcmp", "__builtin_strcmp"):
                a, b = fr.val(st, args[0]), fr.val(st, args[1])
                if {a, b} != {Opq("a"), Opq("b")}: raise AnalysisError("names compared are not the operands")
                seen.append(1)
                if a == Opq("a"): return fr.E.var(st, "r", -255, 255, "int") if "r" not in st.rng else fr.E.refresh(st, var("r", 0, -255, 255, 32, 1))
                return fr.E.var(st, "s", -255, 255, "int")
            return None
        E = Ev(P, call=hcall); st = State(); good = True
        for s, r in E.run(f, st, [Opq("a"), Opq("b")], ("cmp",)):
            if "r" in s.rng: lo, hi = s.rng["r"]
            elif "s" in s.rng: lo, hi = -s.rng["s"][1], -s.rng["s"][0]
            else: good = False; continue
            c = r.const() if isinstance(r, BV) else None
            if c is None and isinstance(r, BV): good = False
            elif c: good = good and hi < 0
            else: good = good and lo >= 0
        if not seen: good = False
        R.check("ORDER", good, ns, f.where(), "names of %s classes are not ordered by strcmp" % ns)

def check(R):
    P = load(["headers", "unicode", "lib/unicode", "lib/posix", "lib/pattern", "lib/convert", "lib/input"]); R.units = P.tus
    R.rule("NAME", "every name leads to a table, and there are no other names", 1000)
    R.rule("TABLE", "the table contains exactly the code points of the class", 500)
    R.rule("FORM", "tables are ordered, disjoint, in range and terminated", 900)
    R.rule("POSIX", "class escapes and bracket classes of patterns give the POSIX sets", 60)
    R.rule("END", "loops over tables test the upper bound for the terminator", 8)
    R.rule("ORDER", "names are looked up exactly", 1)
    D = data()
    PS = posixsets(); PD = dict(PS); PD.update({s: PS[n] for s, n in SHORT.items()})
    for n, x in PD.items(): D.setdefault(n, x)       # the Unicode tables start from the POSIX ones
    check_tables(R, P, "unicode", P.fn("reflex::Unicode::Tables::Tables()"), D)
    check_tables(R, P, "posix", P.fn("reflex::Posix::Tables::Tables()"), PD)
    pattern_classes(R, P); consumers(R, P); lookup(R, P)
    R.note("the data files in unicode/ are the standard of reference; 'Space' and 'C' follow the generator in unicode/language_scripts.l")

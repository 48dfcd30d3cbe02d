"""Sign dataflow of bytes. A plain char that is widened may be negative (or huge) where the byte is 80 to FF. Every widening of a char
is followed, flow-sensitively through locals, branches and calls: the widened value may be narrowed again, masked, or tested against
ASCII constants; it must not be compared with other constants (such as EOF) or with a character code, ordered, used as an index,
classified by the C library, returned, or kept as an integer. Tables indexed by a byte must have 256 entries."""
from core import *
LEVEL = "other"
CTYPE = {"isalnum", "isalpha", "isblank", "iscntrl", "isdigit", "isgraph", "islower", "isprint", "ispunct", "isspace", "isupper", "isxdigit", "toupper", "tolower"}
HARMLESS = {"strchr", "strrchr", "memchr", "memset", "memrchr", "__builtin_strchr", "__builtin_memchr", "fputc", "putc", "putchar", "ungetc"}
CHAR = {"char", "signed char"}
def canon(t): return re.sub(r"\b(const|volatile)\b", "", t or "").strip()
WIDE = {"int": 32, "unsigned int": 32, "long": 64, "unsigned long": 64, "unsigned short": 16, "short": 16, "wchar_t": 32, "char32_t": 32, "char16_t": 16, "long long": 64, "unsigned long long": 64}
NEG, NUM = "neg", None      # may be a sign-extended byte; anything else

class Signs:
    def __init__(self, P, R):
        self.P = P; self.R = R; self.parn = {}; self.ret = {}; self.bad = {}; self.sites = set(); self.numchar = self.numbers()
        self.callers = {}; self.reported = set()
    def numbers(self):
        """fields and statics of type char that only ever hold computed numbers, not bytes of a text"""
        st = {}
        for f in self.P.fns.values():
            for i, nd in enumerate(f.nodes):
                if nd["k"] == "BinaryOperator" and nd["op"] == "=":
                    l = f.n(f.strip(nd["c"][0]))
                    if l["k"] == "MemberExpr" and canon(l.get("t")) in CHAR: st.setdefault(l["d"], []).append((f, nd["c"][1]))
        out = set()
        def computed(f, i):
            j = f.strip(i); nd = f.n(j)
            if nd["k"] == "ConditionalOperator": return computed(f, nd["c"][1]) and computed(f, nd["c"][2])
            if nd.get("cv") is not None and 0 <= int(nd["cv"]) < 128: return True
            return nd["k"] == "BinaryOperator" and nd["op"] in ("-", "&", "/", "%")
        for d, ss in st.items():
            if all(computed(f, i) for f, i in ss): out.add(d)
        return out
    def const(self, f, i):
        j = f.strip(i)
        for x in (i, j):
            v = f.nodes[x].get("cv")
            if v is not None: return int(v)
        nd = f.n(j)
        if nd["k"] == "UnaryOperator" and nd["op"] == "-":
            v = self.const(f, nd["c"][0]); return None if v is None else -v
        return None
    def local(self, f, i):
        """local variable or parameter an expression denotes"""
        j = i
        while f.k(j) in ("ParenExpr", "ImplicitCastExpr") and f.c(j): j = f.c(j)[0]
        nd = f.n(j)
        if nd["k"] == "DeclRefExpr" and nd.get("dk") in ("var", "parm"): return nd["d"]
        return None
    def ascii(self, f, i, params=None, depth=0):
        """the value is an ASCII code whatever is called with: constants, parameters that are only given constants, masks of them"""
        v = self.const(f, i)
        if v is not None: return 0 <= v < 128
        j = f.strip(i); nd = f.n(j); k = nd["k"]; c = nd.get("c", ())
        if depth > 4: return False
        if k == "DeclRefExpr" and nd.get("dk") == "parm":
            if params is not None: return nd["d"] in params
            pos = [q for q, p in enumerate(f.params) if p["d"] == nd["d"]]
            if not pos or self.assigned(f, nd["d"]): return False
            n = 0
            for u in self.users.get(f.id, ()):
                g = self.P.fns[u]
                for x, y in enumerate(g.nodes):
                    if y.get("fn") == f.id and y["k"] in ("CallExpr", "CXXMemberCallExpr"):
                        n += 1; a = y["c"][1:]
                        if pos[0] >= len(a) or not self.ascii(g, a[pos[0]], None, depth + 1): return False
            return n > 0
        if k == "BinaryOperator" and nd["op"] in ("|", "^"): return self.ascii(f, c[0], params, depth) and self.ascii(f, c[1], params, depth)
        if k == "BinaryOperator" and nd["op"] == "&": return self.ascii(f, c[0], params, depth) or self.ascii(f, c[1], params, depth)
        if k == "ConditionalOperator": return self.ascii(f, c[1], params, depth) and self.ascii(f, c[2], params, depth)
        if k == "CallExpr":
            g = self.P.fns.get(nd.get("fn"))
            if g is None or not all(self.ascii(f, a, params, depth) for a in c[1:]): return False
            r = [y["c"][0] for y in g.nodes if y["k"] == "ReturnStmt" and y.get("c")]
            return bool(r) and all(self.ascii(g, y, {p["d"] for p in g.params}, depth + 1) for y in r)
        return False
    def assigned(self, f, d):
        for nd in f.nodes:
            if nd["k"] in ("BinaryOperator", "CompoundAssignOperator", "UnaryOperator") and (nd["op"] in ("=", "++", "--") or nd["k"] == "CompoundAssignOperator") and nd.get("c"):
                x = f.n(f.strip(nd["c"][0]))
                if x["k"] == "DeclRefExpr" and x["d"] == d: return True
        return False
    # ---- expressions
    def val(self, f, s, i):
        nd = f.n(i); k = nd["k"]; c = nd.get("c", ())
        if nd.get("cv") is not None and k not in ("DeclRefExpr", "MemberExpr"): return NUM
        if k in CASTS and c:
            src, dst = canon(f.n(c[0]).get("t")), canon(nd.get("t"))
            if nd.get("ck") == "IntegralCast" or src in CHAR and dst in WIDE:
                if dst in ("unsigned char", "bool"): return NUM
                if src in CHAR and dst in WIDE: return NEG if self.bytechar(f, s, c[0]) else NUM
                return self.val(f, s, c[0])
            if nd.get("ck") in ("IntegralToBoolean", "ToVoid"): return NUM
            return self.val(f, s, c[0])
        if k in STRIP and c: return self.val(f, s, c[0])
        if k == "DeclRefExpr":
            if nd.get("dk") in ("var", "parm") and canon(nd.get("t")).rstrip("&").strip() in WIDE: return s.get(nd["d"], NUM)
            return NUM
        if k == "BinaryOperator":
            o = nd["op"]
            if o == "=": return self.val(f, s, c[0]) if self.local(f, c[0]) is not None else self.val(f, s, c[1])
            if o == ",": return self.val(f, s, c[1])
            if o == "+" and any(self.const(f, x) == 256 for x in c): return NUM       # the usual repair of a negative char
            if o in ("+", "-", "*", "|", "^", "<<") and canon(nd.get("t")) in WIDE:
                return NEG if NEG in (self.val(f, s, c[0]), self.val(f, s, c[1])) else NUM
            if o == "&":
                a, b = self.val(f, s, c[0]), self.val(f, s, c[1])
                if NEG not in (a, b): return NUM
                for x in c:
                    v = self.const(f, x)
                    if v is not None and 0 <= v <= 0xFF: return NUM
                return NEG
            return NUM
        if k == "CompoundAssignOperator" or k == "UnaryOperator" and nd["op"] in ("++", "--"):
            return self.val(f, s, c[0])
        if k == "UnaryOperator" and nd["op"] in ("~", "-", "+"): return self.val(f, s, c[0])
        if k == "ConditionalOperator":
            t, e = dict(s), dict(s); self.refine(f, t, c[0], True); self.refine(f, e, c[0], False)
            return NEG if NEG in (self.val(f, t, c[1]), self.val(f, e, c[2])) else NUM
        if k in ("CallExpr", "CXXMemberCallExpr"):
            g = nd.get("fn")
            if g in self.P.fns and self.ret.get(g) and canon(nd.get("t")) in WIDE: return NEG
            return NUM
        return NUM
    def bytechar(self, f, s, i):
        """the char expression may be a byte above 7F"""
        j = f.strip(i); nd = f.n(j); k = nd["k"]; c = nd.get("c", ())
        if nd.get("cv") is not None: return not 0 <= int(nd["cv"]) < 128
        if k == "DeclRefExpr" and nd.get("dk") in ("var", "parm"): return s.get(nd["d"], "?") is not NUM
        if k == "MemberExpr" and nd["d"] in self.numchar: return False
        if k == "ArraySubscriptExpr":
            b = f.n(f.strip(c[0]))
            if b["k"] == "StringLiteral": return any(ord(x) > 127 for x in b.get("v", ""))
            if b["k"] == "DeclRefExpr" and self.asciitable(f, b): return False
        if k == "BinaryOperator" and nd["op"] == "=": return self.bytechar(f, s, c[1]) if canon(f.n(c[1]).get("t")) in CHAR else True
        if k == "ConditionalOperator": return self.bytechar(f, s, c[1]) or self.bytechar(f, s, c[2])
        t = self.textkey(f, i)
        if t is not None and s.get(t, "?") is NUM: return False
        return True
    def asciitable(self, f, b):
        for key, g in self.P.globals.items():
            if key[0] == b.get("d") and (key[1] in (None, f.id)):
                v = g.get("val")
                if isinstance(v, str): return all(ord(x) < 128 for x in v)
                if isinstance(v, list) and v and all(isinstance(x, int) for x in v): return all(0 <= x < 128 for x in v)
        return False
    def textkey(self, f, i):
        j = f.strip(i); nd = f.n(j)
        if nd["k"] in ("ArraySubscriptExpr", "CXXOperatorCallExpr", "UnaryOperator", "CXXMemberCallExpr", "MemberExpr"):
            t = f.text(j)
            if "++" in t or "--" in t or "=" in t: return None
            return ("t", t)
        return None
    # ---- statements
    def kill(self, s, name):
        for q in [q for q in s if isinstance(q, tuple) and re.search(r"\b%s\b" % re.escape(name), q[1])]: del s[q]
    def elem(self, f, s, i, report):
        nd = f.n(i); k = nd["k"]; c = nd.get("c", ())
        if report: self.sinks(f, s, i)
        def setl(lhs, v, charv=None):
            l = self.local(f, lhs)
            if l is not None:
                ld = f.n(f.strip(lhs)); t = canon(ld.get("t")).rstrip("&").strip()
                s[l] = v if t in WIDE else charv; self.kill(s, ld["n"])
            else:
                j = f.strip(lhs); t = f.n(j)
                if t["k"] == "MemberExpr": self.kill(s, t["n"])
                else:
                    for q in [q for q in s if isinstance(q, tuple)]: del s[q]
        if k == "BinaryOperator" and nd["op"] == "=": setl(c[0], self.val(f, s, c[1]), self.charval(f, s, c[1]))
        elif k == "CompoundAssignOperator":
            o = nd["op"][:-1]; v = NEG if NEG in (self.val(f, s, c[0]), self.val(f, s, c[1])) else NUM
            if o == "&":
                m = self.const(f, c[1])
                if m is not None and 0 <= m <= 0xFF or self.val(f, s, c[1]) is NUM and self.val(f, s, c[0]) is NUM: v = NUM
            if o == "+" and self.const(f, c[1]) == 256: v = NUM
            setl(c[0], v, NUM if o in ("&", "-", "+") and self.const(f, c[1]) is not None else "?")
        elif k == "UnaryOperator" and nd["op"] in ("++", "--"):
            l = f.n(f.strip(c[0]))
            if "n" in l: self.kill(s, l["n"])
        elif k == "DeclStmt":
            for d in nd["decls"]:
                if d["i"] is not None and d["i"] >= 0:
                    t = canon(d["t"]).rstrip("&").strip()
                    s[d["d"]] = self.val(f, s, d["i"]) if t in WIDE else self.charval(f, s, d["i"]) if t in CHAR else "?"
        elif k in ("CallExpr", "CXXMemberCallExpr", "CXXOperatorCallExpr", "CXXConstructExpr"):
            g = self.P.fns.get(nd.get("fn"))
            if g is not None:
                args = c[1:] if k in ("CallExpr", "CXXMemberCallExpr") else c[1:] if k == "CXXOperatorCallExpr" and g.cls else c
                for p, a in zip(g.params, args):
                    t = canon(p["t"])
                    if t in WIDE and self.val(f, s, a) is NEG and not self.parn.get((g.id, p["d"])):
                        self.parn[(g.id, p["d"])] = (f, i); self.dirty.add(g.id)
            # variables passed by reference or address
            for a in c:
                if a < 0: continue
                x = f.n(f.strip(a))
                if x["k"] == "UnaryOperator" and x["op"] == "&":
                    l = self.local(f, x["c"][0])
                    if l is not None and l in s: s[l] = "?" if s[l] == "?" else NUM
        elif k == "ReturnStmt" and c and c[0] is not None and c[0] >= 0:
            if canon(f.n(c[0]).get("t")) in WIDE and self.val(f, s, c[0]) is NEG:
                if not self.ret.get(f.id): self.ret[f.id] = (f, i); self.dirty |= self.users.get(f.id, set())
    def charval(self, f, s, i):
        """NUM when the char assigned is known to be ASCII or a number"""
        while f.k(i) in CASTS | {"ParenExpr"} and f.c(i):
            if canon(f.n(f.c(i)[0]).get("t")) not in CHAR and canon(f.n(i).get("t")) in CHAR:
                v = self.const(f, f.c(i)[0])
                return NUM if v is not None and 0 <= v < 128 else "?"
            i = f.c(i)[0]
        if canon(f.n(i).get("t")) in CHAR: return "?" if self.bytechar(f, s, i) else NUM
        v = self.const(f, i)
        return NUM if v is not None and 0 <= v < 128 else "?"
    # ---- branches
    def refine(self, f, s, i, truth):
        """what a condition says about the sign of a variable"""
        j = i
        while f.k(j) in ("ParenExpr", "ImplicitCastExpr", "ExprWithCleanups") and f.c(j): j = f.c(j)[0]
        nd = f.n(j); k = nd["k"]; c = nd.get("c", ())
        if k == "UnaryOperator" and nd["op"] == "!": return self.refine(f, s, c[0], not truth)
        if k == "BinaryOperator" and nd["op"] in ("&&", "||"):
            if (nd["op"] == "&&") == truth:
                for x in c: self.refine(f, s, x, truth)
            return
        def pos(x):
            x = f.strip(x); y = f.n(x)
            if y["k"] == "BinaryOperator" and y["op"] == "=": x = f.strip(y["c"][0])
            l = self.local(f, x)
            if l is not None: s[l] = NUM
            else:
                t = self.textkey(f, x)
                if t is not None: s[t] = NUM
        if k == "BinaryOperator" and nd["op"] in ("==", "!=", "<", "<=", ">", ">="):
            for a, b, o in ((c[0], c[1], nd["op"]), (c[1], c[0], {"<": ">", "<=": ">=", ">": "<", ">=": "<="}.get(nd["op"], nd["op"]))):
                v = self.const(f, b)
                if v is None: 
                    # strchr(...) != NULL
                    continue
                if (o == "==" and truth or o == "!=" and not truth) and 0 <= v < 128: pos(a)
                if (o == ">=" and truth or o == "<" and not truth) and v >= 0: pos(a)
                if (o == ">" and truth or o == "<=" and not truth) and v >= -1: pos(a)
                # mask test: (x & 0x80) == 0
                x = f.n(f.strip(a))
                if x["k"] == "BinaryOperator" and x["op"] == "&" and v == 0 and (o == "==") == truth: self.mask(f, s, x, pos)
            for a, b in (c, c[::-1]):
                if self.call(f, a) in ("strchr", "memchr", "isalnum", "isalpha", "isdigit", "isxdigit", "isupper", "islower"):
                    z = f.n(f.strip(b))
                    null = z["k"] in ("GNUNullExpr", "CXXNullPtrLiteralExpr") or self.const(f, b) == 0
                    if null and (nd["op"] == "!=") == truth: pos(f.c(f.strip(a))[self.argof(f, a)])
        elif k == "BinaryOperator" and nd["op"] == "&" and not truth: self.mask(f, s, nd, pos)
        elif truth and self.call(f, j) in ("strchr", "isalnum", "isalpha", "isdigit", "isxdigit", "isupper", "islower", "isspace"):
            pos(f.c(f.strip(j))[self.argof(f, j)])
    def mask(self, f, s, nd, pos):
        for a, b in (nd["c"], nd["c"][::-1]):
            v = self.const(f, b)
            if v is not None and v & 0x80: pos(a)
    def argof(self, f, i): return 2 if self.call(f, i) in ("strchr", "memchr") else 1
    def call(self, f, i):
        nd = f.n(f.strip(i))
        if nd["k"] != "CallExpr" or len(nd["c"]) < 2: return None
        return nd.get("n") or (nd.get("fn") or "").split("(")[0].split("::")[-1]
    # ---- demands
    def report(self, f, i, what):
        key = "%s: %s" % (f.name, what)
        self.bad.setdefault(key, (f.at(i), what))
        self.badat.add((f.id, i))
    def sinks(self, f, s, i):
        nd = f.n(i); k = nd["k"]; c = nd.get("c", ())
        N = lambda x: x >= 0 and self.val(f, s, x) is NEG
        if k in CASTS and c and canon(f.n(c[0]).get("t")) in CHAR and canon(nd.get("t")) in WIDE: self.sites.add((f.id, i))
        if k == "BinaryOperator" and nd["op"] in ("==", "!="):
            a, b = N(c[0]), N(c[1])
            if a != b and not (self.promoted(f, c[0]) and self.promoted(f, c[1])):
                o = c[1] if a else c[0]; v = self.const(f, o)
                if f.k(f.strip(o)) == "CharacterLiteral" or self.ascii(f, o): pass
                elif v is None: self.report(f, i, "a char is compared with a character code: %s" % f.text(i)[:80])
                elif not 0 <= v < 128: self.report(f, i, "a char is compared with %d: %s" % (v, f.text(i)[:80]))
        elif k == "BinaryOperator" and nd["op"] in ("<", "<=", ">", ">="):
            if N(c[0]) or N(c[1]):
                if not self.masked(f, i) and not self.repaired(f, i): self.report(f, i, "a char that may be negative is ordered: %s" % f.text(i)[:80])
        elif k == "BinaryOperator" and nd["op"] in ("/", "%", ">>") and N(c[0]): self.report(f, i, "a char that may be negative is divided or shifted: %s" % f.text(i)[:80])
        elif k == "BinaryOperator" and nd["op"] == "=" and N(c[1]):
            l = self.local(f, c[0]); t = canon(f.n(f.strip(c[0])).get("t")).rstrip("&").strip()
            if t in WIDE and (l is None or self.isref(f, l)): self.report(f, i, "a char that may be negative is kept as a number: %s" % f.text(i)[:80])
        elif k == "ArraySubscriptExpr" and N(c[1]): self.report(f, i, "a char that may be negative is an index: %s" % f.text(i)[:80])
        elif k == "CXXOperatorCallExpr" and nd.get("op") == "[]" and len(c) > 2 and N(c[2]): self.report(f, i, "a char that may be negative is an index: %s" % f.text(i)[:80])
        elif k in ("BinaryOperator", "CompoundAssignOperator") and "*" in (nd.get("t") or "") and nd["op"] in ("+", "-", "+=", "-=") and any(N(x) for x in c): self.report(f, i, "a char that may be negative is an offset: %s" % f.text(i)[:80])
        elif k == "CXXStaticCastExpr" and c and N(c[0]) and canon(nd.get("t")) in ("double", "float"): self.report(f, i, "a char that may be negative is a number: %s" % f.text(i)[:80])
        elif k in ("CallExpr", "CXXMemberCallExpr", "CXXConstructExpr", "CXXTemporaryObjectExpr", "CXXOperatorCallExpr"):
            n = nd.get("n") or (nd.get("fn") or "").split("(")[0].split("::")[-1]; g = self.P.fns.get(nd.get("fn"))
            args = c[1:] if k in ("CallExpr", "CXXMemberCallExpr") else c
            for q, a in enumerate(args):
                if a < 0 or not N(a): continue
                if canon(f.n(a).get("t")) not in WIDE: continue
                if g is not None and k != "CXXOperatorCallExpr": continue          # followed into the function
                if n in HARMLESS: continue
                if n in ("printf", "fprintf", "snprintf", "sprintf") and self.percentc(f, args, q): continue
                if n in CTYPE: self.report(f, i, "a char that may be negative is classified: %s" % f.text(i)[:80])
                elif k == "CXXOperatorCallExpr" and nd.get("op") in ("[]", "<<"): pass      # written out as a number
                else: self.report(f, i, "a char that may be negative is passed as a number: %s" % f.text(i)[:80])
        elif k == "ReturnStmt" and c and c[0] is not None and c[0] >= 0 and N(c[0]) and canon(f.n(c[0]).get("t")) in WIDE:
            if f.cls or not f.d.get("static", True) or f.name in self.exported: self.report(f, i, "a char that may be negative is returned as a character code: %s" % f.text(c[0])[:80])
        # tables
        if k == "ArraySubscriptExpr" and len(c) > 1:
            t = self.elem_type(f, c[1])
            b = f.n(f.strip(c[0])).get("t") or ""; m = re.search(r"\[(\d+)\]$", b)
            if t in ("unsigned char", "char") and m:
                self.tables.add((f.id, i))
                if int(m.group(1)) < 256: self.report(f, i, "a table of %s entries is indexed by a byte: %s" % (m.group(1), f.text(i)[:80]))
    def elem_type(self, f, i):
        while f.k(i) in ("ImplicitCastExpr", "ParenExpr") and f.c(i): i = f.c(i)[0]
        if f.nodes[i].get("cv") is not None: return None
        return canon(f.n(i).get("t"))
    def isref(self, f, l):
        for p in f.params:
            if p["d"] == l: return p["t"].endswith("&")
        return False
    def percentc(self, f, args, q):
        for k, a in enumerate(args):
            nd = f.n(f.strip(a))
            if nd["k"] == "StringLiteral":
                sp = re.findall(r"%[-+ #0]*(?:\d+|\*)?(?:\.(?:\d+|\*))?(?:hh|h|ll|l|z|j|t)?([a-zA-Z])", nd["v"].replace("%%", ""))
                return 0 <= q - k - 1 < len(sp) and sp[q - k - 1] == "c"
        return False
    def promoted(self, f, i):
        while f.k(i) in ("ImplicitCastExpr", "ParenExpr") and f.c(i):
            i = f.c(i)[0]
            if canon(f.n(i).get("t")) in CHAR: return True
        return False
    def repaired(self, f, i):
        """x < 0 only decides to add 256 to x"""
        nd = f.n(i); p = f.par.get(i)
        while p is not None and f.k(p) in ("ParenExpr", "ImplicitCastExpr"): p = f.par.get(p)
        if p is None or nd["op"] not in ("<", ">=") or self.const(f, nd["c"][1]) != 0: return False
        x = f.text(f.strip(nd["c"][0])); q = f.n(p)
        if q["k"] not in ("ConditionalOperator", "IfStmt"): return False
        c = q["c"]
        if q["k"] == "IfStmt" and nd["op"] == ">=": return False
        b = c[1] if nd["op"] == "<" else c[2]
        for j in [b] if q["k"] == "ConditionalOperator" else f.walk(b):
            y = f.n(f.strip(j))
            if y["k"] in ("BinaryOperator", "CompoundAssignOperator") and y["op"] in ("+", "+=", "=") and any(self.const(f, z) == 256 for z in f.walk(f.strip(j))) and f.text(f.strip(y["c"][0])) == x: return True
        return False
    def masked(self, f, i):
        """the boolean expression around an ordering has the same value for a byte and for its sign-extension"""
        top = i
        while True:
            p = f.par.get(top)
            if p is None: break
            nd = f.n(p)
            if nd["k"] in ("ParenExpr", "ImplicitCastExpr") or nd["k"] == "BinaryOperator" and nd["op"] in ("&&", "||") or nd["k"] == "UnaryOperator" and nd["op"] == "!": top = p
            else: break
        def var(x):
            x = f.strip(x); nd = f.n(x)
            if nd["k"] == "BinaryOperator" and nd["op"] == "=": x = f.strip(nd["c"][0])
            return f.text(x).replace("++", "")
        nd = f.n(i); a, b = nd["c"]; who = var(a) if self.const(f, b) is not None else var(b)
        atoms = {}
        def ev(j, b):
            while f.k(j) in ("ParenExpr", "ImplicitCastExpr", "ExprWithCleanups") and f.c(j): j = f.c(j)[0]
            nd = f.n(j); c = nd.get("c", ())
            if nd["k"] == "BinaryOperator" and nd["op"] in ("&&", "||"):
                x = ev(c[0], b); y = ev(c[1], b); return (x and y) if nd["op"] == "&&" else (x or y)
            if nd["k"] == "UnaryOperator" and nd["op"] == "!": return not ev(c[0], b)
            if nd["k"] == "BinaryOperator" and nd["op"] in ("==", "!=", "<", "<=", ">", ">="):
                for x, y, o in ((c[0], c[1], nd["op"]), (c[1], c[0], {"<": ">", "<=": ">=", ">": "<", ">=": "<="}.get(nd["op"], nd["op"]))):
                    v = self.const(f, y)
                    if v is not None and var(x) == who: return {"==": b == v, "!=": b != v, "<": b < v, "<=": b <= v, ">": b > v, ">=": b >= v}[o]
            if j not in atoms: atoms[j] = len(atoms)
            return bool(self.assign >> atoms[j] & 1)
        self.assign = 0; ev(top, 0)
        if len(atoms) > 6: return False
        for self.assign in range(1 << len(atoms)):
            for b in range(128, 256):
                if ev(top, b) != ev(top, b - 256): return False
        return True
    # ---- fixpoint
    def run(self, f, report=False):
        init = {}
        for p in f.params:
            t = canon(p["t"])
            if t in WIDE: init[p["d"]] = NEG if self.parn.get((f.id, p["d"])) else NUM
        inn = {f.entry: init}; todo = [f.entry]; n = 0
        def join(a, b):
            o = {}
            for q in set(a) | set(b):
                if isinstance(q, tuple):
                    if q in a and q in b: o[q] = NUM
                else:
                    x, y = a.get(q, "?"), b.get(q, "?")
                    o[q] = x if x == y else NEG if NEG in (x, y) else "?"
            return o
        def flow(b, s, rep):
            B = f.cfg[b]
            for e in B["e"]:
                if isinstance(e, int): self.elem(f, s, e, rep)
            out = []
            succ = [x for x in B["s"]]
            if B.get("tk") == "SwitchStmt":
                cond = B.get("cond")
                for y in succ:
                    if y is None: continue
                    t = dict(s)
                    lab = f.cfg[y].get("label"); l = self.local(f, cond) if cond is not None and cond >= 0 else None
                    if l is not None and lab is not None and lab >= 0 and f.k(lab) == "CaseStmt": t[l] = NUM
                    out.append((y, t))
                return out
            if len(succ) == 2 and B.get("cond", -1) is not None and B.get("cond", -1) >= 0:
                for y, tr in zip(succ, (True, False)):
                    if y is None: continue
                    t = dict(s); self.refine(f, t, self.leaf(f, B), tr); out.append((y, t))
                return out
            return [(y, dict(s)) for y in succ if y is not None]
        while todo:
            b = todo.pop(); n += 1
            if n > 20000: raise AnalysisError("sign analysis of %s does not end" % f.id)
            for y, t in flow(b, dict(inn[b]), False):
                if y not in inn: inn[y] = t; todo.append(y)
                else:
                    j = join(inn[y], t)
                    if j != inn[y]: inn[y] = j; todo.append(y)
        if report:
            for b in sorted(inn): flow(b, dict(inn[b]), True)
    def leaf(self, f, B):
        c = B["cond"]
        # a condition a && b ends a block with its last operand
        while True:
            j = c
            while f.k(j) in ("ParenExpr", "ImplicitCastExpr", "ExprWithCleanups") and f.c(j): j = f.c(j)[0]
            nd = f.n(j)
            if nd["k"] == "BinaryOperator" and nd["op"] in ("&&", "||"): c = nd["c"][1]
            else: return c

def check(R):
    R.rule("WIDEN", "a char that is widened is not used where a byte above 7F would be negative", 100)
    R.rule("TABLE", "a table indexed by a byte has 256 entries", 1)
    P = load(["headers", "flex", "lib", "src"]); R.units = P.tus
    S = Signs(P, R); S.badat = set(); S.tables = set(); S.users = {}; S.dirty = set(); S.exported = {"latin1", "convert", "unicode_class", "posix_class"}
    fs = [f for f in P.fns.values() if f.cfg]
    for f in fs:
        for nd in f.nodes:
            if nd.get("fn") in P.fns: S.users.setdefault(nd["fn"], set()).add(f.id)
    S.dirty = {f.id for f in fs}
    for _ in range(60):
        if not S.dirty: break
        d = S.dirty; S.dirty = set()
        for i in sorted(d):
            if P.fns[i].cfg: S.run(P.fns[i])
    else: raise AnalysisError("sign analysis of the program does not end")
    for f in fs: S.run(f, True)
    for f in sorted({x[0] for x in S.sites}):
        n = len([x for x in S.sites if x[0] == f]); 
        for q in range(n): R.ok("WIDEN", "char widened in %s" % P.fns[f].name)
    for x in sorted(S.tables, key=repr):
        if x not in S.badat: R.ok("TABLE", "table in %s" % P.fns[x[0]].name)
    for key, (at, what) in sorted(S.bad.items()): R.bad("TABLE" if "table of" in what else "WIDEN", key, at, what)
    R.assumption("Plain char is signed (or may be). A char member that is only ever assigned computed numbers holds a number.")

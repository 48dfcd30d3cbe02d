"""Regex errors carry the right message. (1) The function that turns an error code into a message is evaluated abstractly for every
declared error code: it hands on a message, its own for each code, that fits the name of the code better than any other, together
with the text and the position it was given. (2) The constructors of the exception, its accessors and the pattern's report function
are evaluated with opaque arguments: code, text and position arrive unmixed. (3) Each place that reports an error gives a declared
code and the text it parses. (4) The functions that quote the regex are interpreted over a relational domain of text cursors (differences
between cursors and the length of the text, characters known at cursors): every character they read lies at or before the
terminator, every span they quote within the text."""
from text import *
import ev
from ev import Ev, State, K, Opq, Ptr, BV, TOP

SYN = {"parens": ["(", ")"], "braces": ["{", "}"], "brackets": ["[", "]"], "quotation": ["quot", "\"", "\\Q"], "class": ["class"], "limits": ["limit", "complex"], "length": ["length", "long"], "repeat": ["repeat"], "anchor": ["anchor", "boundary"],
       "quantifier": ["quantif"], "modifier": ["modif"], "collating": ["collat"], "backreference": ["backref"], "undefined": ["undefined", "unknown"], "range": ["range"], "escape": ["escape"], "syntax": ["syntax"], "expression": ["expression"],
       "mismatched": ["mismatch", "unmatched", "unbalanced"], "empty": ["empty"], "invalid": ["invalid", "bad"], "exceeds": ["exceed", "too "], "name": ["name"]}
def score(name, msg):
    m = msg.lower(); s = 0
    words = name.split("_")
    for w in words:
        if any(x.lower() in m for x in SYN.get(w, [w])): s += 10
    # words of the message that the name lacks
    for w in re.findall(r"[a-z]{4,}", m):
        if not any(w.startswith(x[:5]) or x.startswith(w[:5]) for v in words for x in [v] + [y.strip() for y in SYN.get(v, [])]): s -= 1
    return s

def same(a, b): return a == b or (isinstance(a, Ptr) and isinstance(b, Ptr) and a == b)

def check(R):
    P = load(["lib/error", "lib/convert", "lib/pattern", "headers"]); R.units = P.tus
    R.rule("CODES", "error codes are distinct", 5)
    R.rule("MESSAGE", "error code has a message of its own that fits its name, handed on with the regex and the position", 5)
    R.rule("CARRY", "constructor, accessor or report function carries code, regex and position unmixed", 4)
    R.rule("SITE", "place that reports an error gives a declared code and the text it parses", 40)
    R.rule("READ", "character read when the regex is quoted lies in the text", 5)
    R.rule("SPAN", "stretch of the regex that is quoted lies in the text", 1)
    R.rule("COUNT", "length of a quoted stretch is not negative", 0)
    cls = "reflex::regex_error"
    codes = {}
    for (gid, fn), g in P.globals.items():
        m = re.match(r"^reflex::regex_error::([a-z_]+)$", gid)
        if m and isinstance(g.get("val", g.get("v")), (int, str)): codes[m.group(1)] = int(g.get("val", g.get("v")))
    if len(codes) < 5: raise AnalysisError("error codes not found")
    for n, v in sorted(codes.items()):
        o = [m for m, w in codes.items() if w == v and m != n]
        R.check("CODES", not o, "code " + n, "include/reflex/error.h", "%s has the same value as %s" % (n, ", ".join(o)))
    # ---- messages
    MF = [f for f in P.fns.values() if f.cls == cls and f.cfg and f.params and "const char" in f.params[0]["t"] and "basic_string" in f.d.get("ret", "")]
    CF = [f for f in P.fns.values() if f.cls == cls and f.cfg and f.params and f.params[0]["t"] == "int" and "basic_string" in f.d.get("ret", "")]
    if not CF: raise AnalysisError("function that maps error codes to messages vanished")
    shown = {f.id for f in MF}; coded = {f.id for f in CF}
    def run(fn, args, this=None):
        got = []
        def hcall(A, st, i, fid, obj, av):
            nd = A.fn.nodes[i]
            if fid in shown or (fid in coded and fn.id not in coded): got.append((fid, [A.val(st, a) for a in av], A.fn.at(i))); return Opq("msg")
            if nd.get("n") in ("c_str", "data") and obj is not None: return Opq(("chars", obj if not isinstance(A.E.read(st, obj), Opq) else A.E.read(st, obj)))
            return None
        E = Ev(P, call=hcall); st = State(); out = []
        out = E.run(fn, st, args, this)
        return got, out
    def text(v):
        if isinstance(v, Ptr) and v.path and v.path[0] == "str" and v.off == 0: return v.path[1]
        return None
    M = {}
    for f in CF:
        for n, v in sorted(codes.items(), key=lambda x: x[1]):
            x, y = Opq("regex"), Opq("pos")
            got, out = run(f, [K(v), x, y])
            ok = bool(got) and all(text(g[1][0]) is not None for g in got); why = "no message of its own is found for %s" % n
            if ok and not all(len(g[1]) >= 3 and g[1][1] == x and g[1][2] == y for g in got): ok = False; why = "the message for %s is shown with another text or position" % n
            if ok: M[n] = text(got[0][1][0])
            if ok and any(text(g[1][0]) != M[n] for g in got): ok = False; why = "%s has several messages" % n
            if not ok: R.bad("MESSAGE", "message of " + n, f.where(), why)
    for n in M:
        mine = score(n, M[n]); better = [o for o in M if score(n, M[o]) > mine]
        dup = [o for o in M if o != n and M[o] == M[n]]
        if not M[n].strip(): R.bad("MESSAGE", "message of " + n, CF[0].where(), "the message of %s is empty" % n)
        elif dup: R.bad("MESSAGE", "message of " + n, CF[0].where(), "%s and %s have the same message \"%s\"" % (n, dup[0], M[n]))
        else: R.check("MESSAGE", not better, "message of " + n, CF[0].where(), "%s is reported as \"%s\", which is the message of another error (\"%s\" fits)" % (n, M[n], M[better[0]] if better else ""))
    # ---- carriers
    for f in sorted(P.fns.values(), key=lambda f: f.id):
        if f.cls == cls and f.kind in ("ctor", "CXXConstructor") or (f.cls == cls and f.name == "regex_error"):
            if not f.cfg or len(f.params) < 3: continue
            c, x, y = Opq("code"), Opq("regex"), Opq("pos")
            if "basic_string" in f.params[1]["t"]: xs = ("regex",); want = [Opq(("chars", ("regex",)))]
            else: xs = x; want = [x]
            got, out = run(f, [c, xs, y], ("E",))
            isc = f.params[0]["t"] in ("int", "regex_error_type")
            ok = len(got) == 1 and got[0][1][0] == c and got[0][1][1] in want and got[0][1][2] == y and (got[0][0] in coded) == isc
            why = "the message is not built from the constructor's own code or message, regex and position"
            for s, v in out:
                co, po = [s.mem.get(("E", n)) for n in ("code_", "pos_")]
                if isc and co != c: ok = False; why = "the exception does not keep the error code it was given"
                if not isc and not (isinstance(co, BV) and co.const() in codes.values()): ok = False; why = "the exception has no declared error code"
                if po != y: ok = False; why = "the exception does not keep the position it was given"
            R.check("CARRY", ok, "constructor " + ", ".join(p["t"].split("<")[0] for p in f.params), f.where(), why)
        if f.cls == cls and f.cfg and not f.params and f.name in ("code", "pos"):
            st = State(); a, b = Opq("c"), Opq("p"); st.mem[("E", "code_")] = a; st.mem[("E", "pos_")] = b
            r = Ev(P).run(f, st, [], ("E",))
            R.check("CARRY", len(r) == 1 and r[0][1] == (a if f.name == "code" else b), "accessor " + f.name, f.where(), "%s() does not return what the exception was given" % f.name)
        if f.cls == "reflex::Pattern" and f.name == "error" and f.cfg and len(f.params) == 2:
            c, y = Opq("code"), Opq("pos")
            got, out = run(f, [c, y], ("P",))
            ok = bool(got) and all(g[1][0] == c and g[1][1] == Opq(("chars", ("P", "rex_"))) and g[1][2] == y for g in got)
            R.check("CARRY", ok, "Pattern::error", f.where(), "the error reported is not built from the code, the pattern's regex and the position")
    # ---- sites
    for f in sorted(P.fns.values(), key=lambda f: f.id):
        if f.cls == cls: continue
        k = 0
        for i, nd in enumerate(f.nodes):
            a = None
            if nd["k"] in ("CXXConstructExpr", "CXXTemporaryObjectExpr") and nd.get("cls") == cls and not nd.get("copy") and len(nd["c"]) >= 2: a = nd["c"]
            elif nd["k"] == "CXXMemberCallExpr" and nd.get("n") == "error" and nd.get("cls") == "reflex::Pattern" and len(nd["c"]) >= 3: a = [nd["c"][1], None]
            if a is None: continue
            t = f.nodes[f.strip(a[0])].get("t", "")
            if "char" in t: continue
            if f.cls == "reflex::Pattern" and f.name == "error": continue
            k += 1
            vals = set()
            def leaves(x):
                x = f.strip(x)
                v = f.cv(x)
                if v is None and f.k(x) in ("DeclRefExpr", "MemberExpr") and f.nodes[x].get("dk") == "global": v = codes.get(f.nodes[x]["d"].split("::")[-1])
                if v is not None: vals.add(v); return
                if f.k(x) == "ConditionalOperator":
                    for y in f.c(x)[1:]: leaves(y)
                elif f.k(x) == "DeclRefExpr" and f.nodes[x].get("dk") == "var":
                    d = f.nodes[x]["d"]; n0 = len(vals)
                    for nd2 in f.nodes:
                        if nd2["k"] == "DeclStmt":
                            for q in nd2["decls"]:
                                if q["d"] == d and q["i"] >= 0: leaves(q["i"])
                        elif nd2["k"] == "BinaryOperator" and nd2["op"] == "=" and f.strip(nd2["c"][0]) >= 0 and f.nodes[f.strip(nd2["c"][0])].get("d") == d: leaves(nd2["c"][1])
                elif f.k(x) == "DeclRefExpr" and f.nodes[x].get("dk") == "parm": vals.add(None)
                else: vals.add("?")
            leaves(a[0])
            bad = [v for v in vals if v is not None and v not in codes.values()]
            ok = bool(vals) and not bad; why = "the error code given is not one of the declared codes"
            if ok and a[1] is not None:
                root = f.path(a[1])
                own = {p["d"] for p in f.params if "char" in p["t"]}
                if root is None or not (root[0] in own or root == ("this", "rex_") or (f.cls or "").endswith("Matcher")):
                    ok = False; why = "the text quoted, %s, is not the regex that is parsed" % f.text(a[1])[:40]
            R.check("SITE", ok, "report %d in %s" % (k, f.name), f.at(i), why)
    # ---- quoting
    scope = lambda f: f.cls == cls and f.cfg and f.file.endswith(("error.cpp", "error.h")) and any("char *" in p["t"] for p in f.params)
    helpers = set(); work = [f for f in P.fns.values() if scope(f) and f.file.endswith("error.cpp")]
    roots = list(work)
    while work:
        f = work.pop()
        for nd in f.nodes:
            g = P.fns.get(nd.get("fn")) if nd["k"] in ("CallExpr", "CXXMemberCallExpr") else None
            if g is not None and g.cfg and g.id not in helpers and g.file.startswith(REPO): helpers.add(g.id); work.append(g)
    H = Hooks(P, lambda f: f.id in helpers, inline=lambda f: f.id in helpers and len(f.nodes) < 60)
    C = Cur(P, H); C.solve(roots)
    for key, (ok, what, F, j) in sorted(H.obs.items(), key=lambda x: str(x[0])):
        R.check(key[0], ok, "%s in %s" % (F.fn.text(j)[:60], F.fn.name), F.fn.at(j), what)
    R.assumption("Integer arithmetic on positions does not wrap around; standard string functions behave as documented.")

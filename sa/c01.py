"""Copy completeness. Every user-written copy constructor and copy assignment of the library's classes is interpreted
abstractly (provenance domain over the CFG, calls inlined, so helpers do not matter) and the provenance of each field of
the target at the exit is compared with the role of the field: COPY (exactly the same field of the source, arrays in
full), OWNED (a fresh allocation filled from the same field of the source, or the shared pointer itself), INPUT (the
input object: same member of the source's input, possibly advanced by reading), FRESH (scanning state that a copy starts
anew: neither taken from the source nor left at the target's old value), SCRATCH (written by each match before use).
A field that no table names is taken to be COPY. Also every concrete matcher class clones itself as its own class."""
from core import *
from prov import *

M = "reflex::AbstractMatcher"
FRESH = {M: {"buf_", "txt_", "len_", "cap_", "cur_", "pos_", "end_", "ind_", "blk_", "got_", "chr_", "bol_", "evh_", "lpb_", "lno_", "cno_", "cpb_", "num_", "own_", "eof_", "mat_", "max_", "scan", "find", "split"},
         "reflex::PatternMatcher": {"own_@PatternMatcher"},
         "reflex::BoostMatcher": {"itr_", "fin_", "grp_"}, "reflex::StdMatcher": {"itr_", "fin_", "grp_"},
         "reflex::PCRE2Matcher": {"dat_", "ctx_", "stk_", "grp_", "jit_"},
         "reflex::FuzzyMatcher": {"err_"},
         "reflex::Pattern": {"tfa_", "dfa_"},
         "reflex::AbstractLexer": {"matcher_", "stack_"}}
# left as they were by an assignment: kept resources, not state of the scan
KEEP = {M: {"buf_", "max_"}, "reflex::PCRE2Matcher": {"ctx_", "stk_"}}
SIZED = {"reflex::FuzzyMatcher": {"bpt_": "max_@FuzzyMatcher"}}   # storage whose size is that of a copied field
SCRATCH = {"reflex::Matcher": {"col_", "lap_", "stk_", "fsm_", "mrk_", "anc_"}}
OWNED = {"reflex::Pattern": {"opc_"}, "reflex::PatternMatcher": {"pat_"}, "reflex::PCRE2Matcher": {"opc_"}, "reflex::Bits": {"vec_"}}
WITH_OWNED = {"reflex::Pattern": {"nop_", "fsm_"}}                # 0 when there is nothing to own
INPUT = {M: {"in"}}

def tab(t, cls): return t.get(cls, t.get(re.sub(r"<.*", "", cls), set()))

def targets(P):
    out = []
    for f in sorted(P.fns.values(), key=lambda f: f.id):
        if f.kind in ("copyctor", "copyassign") and f.body is not None and f.cls in P.recs and "Bitref" not in f.cls: out.append((f.cls, f))
    return out

def short_loops(P, I, ids):
    """loops copying elements which visibly stop early or start late"""
    out = []
    for fid in ids:
        f = P.fns.get(fid)
        if f is None: continue
        for i, nd in enumerate(f.nodes):
            if nd["k"] != "ForStmt": continue
            iv = None; start = None; bound = None; op = None
            for j in f.walk(i):
                n = f.n(j)
                if n["k"] == "DeclStmt" and start is None and n["decls"] and n["decls"][0]["i"] >= 0 and f.par.get(j) == i: iv, start = n["decls"][0]["d"], f.cv(n["decls"][0]["i"])
                if n["k"] == "BinaryOperator" and n["op"] in ("<", "<=", "!=") and bound is None:
                    l = f.strip(n["c"][0])
                    if f.k(l) == "DeclRefExpr" and f.n(l)["d"] == iv: bound = n["c"][1]; op = n["op"]
            if iv is None or bound is None: continue
            for j in f.walk(i):
                n = f.n(j)
                if n["k"] == "BinaryOperator" and n["op"] == "=":
                    l, r = f.strip(n["c"][0]), f.strip(n["c"][1])
                    if f.k(l) == "ArraySubscriptExpr" and f.k(r) == "ArraySubscriptExpr" and f.path(l) and f.path(r) and f.path(l)[-2:] == f.path(r)[-2:]:
                        t = f.n(f.strip(f.c(l)[0])).get("t", ""); m = re.search(r"\[(\d+)\]$", t)
                        b = f.cv(bound)
                        if start not in (0, None): out.append((f, j, "starts at %s" % start))
                        elif m and b is not None and b + (op == "<=") < int(m.group(1)): out.append((f, j, "covers %d of %s elements" % (b, m.group(1))))
                        elif f.k(f.strip(bound)) == "BinaryOperator" and f.n(f.strip(bound))["op"] in ("-", "/", ">>"): out.append((f, j, "stops before " + f.text(bound)))
    return out

def check(R):
    P = load(["headers", "flex", "lib"]); R.units = P.tus
    R.rule("COPY", "field has the value of the same field of the source", 90)
    R.rule("OWNED", "owned resource is a filled fresh copy, or shared as such", 6)
    R.rule("INPUT", "input state comes from the same member of the source's input", 6)
    R.rule("FRESH", "scanning state starts anew", 100)
    R.rule("SIZED", "storage sized by a copied field is sized again", 2)
    R.rule("WHOLE", "element-wise copies cover the whole array", 20)
    R.rule("CLONE", "a concrete matcher is cloned as its own class", 5)
    need = {"reflex::Pattern": 2, "reflex::Matcher": 2, "reflex::FuzzyMatcher": 2, "reflex::BoostMatcher": 2, "reflex::StdMatcher": 2, "reflex::PCRE2Matcher": 2, "reflex::Input": 2, "reflex::BufferedInput": 2, "reflex::Bits": 2}
    for cls, f in targets(P):
        need[cls] = need.get(cls, 0) - 1
        I = Interp(P, dyn=cls); st, rv, A = I.run(f)
        if st is None: raise AnalysisError("no normal exit from " + f.id)
        src = ("#" + f.params[0]["n"],); op = "copy constructor" if f.kind == "copyctor" else "assignment"
        sc = re.sub(r"std::char_traits<char>|std::allocator<char>|boost::regex_traits<char.*?>>|[, ]", "", cls)
        for dec in [cls] + P.bases(cls):
            if dec not in P.recs: continue
            for fl in P.recs[dec]["fields"]:
                n = fl["n"]; p = ("this", n); key = "%s %s %s" % (sc, op, n); w = f.where()
                subs = {q: v for q, v in st.items() if q[:2] == p and len(q) > 2}
                v = st.get(p) if p in st or not subs else None
                if v is None and not subs: v = I.default(p)
                want = ("in", src + (n,)); old = ("in", p)
                show = "%s of %s leaves %s with %s" % (op, sc, n, fmt(v, subs))
                if n in tab(SCRATCH, dec): continue
                if n in SIZED.get(dec, ()):
                    R.check("SIZED", v is not None and any(a[0] in ("dep", "in") and a[1] == src + (SIZED[dec][n],) for a in v), key, w, show); continue
                if n in tab(INPUT, dec):
                    good = bool(subs) or v == frozenset([want])
                    for q, x in subs.items():
                        ws = src + q[1:]
                        if not any(a[0] in ("in", "dep") and a[1][:len(ws)] == ws for a in x) and not all(a[0] == "c" for a in x): good = False
                        if any(a[0] == "in" and a[1][0] == "this" for a in x) and q[-1] != "*": good = False
                    R.check("INPUT", good, key, w, show); continue
                if n in tab(FRESH, dec):
                    keep = n in tab(KEEP, dec)
                    good = True
                    for q, x in list(subs.items()) + ([(p, v)] if v is not None and not subs else []):
                        if fl.get("ptr") and ("in", src + (n,)) in x: good = False
                        if q[-1] == "*": continue
                        if ("in", q) in x and not keep: good = False
                        if x == frozenset([("u",)]): good = False
                    R.check("FRESH", good, key, w, show); continue
                if n in tab(OWNED, dec):
                    good = v is not None and old not in v and any(a == want or a[0] == "new" or (a[0] in ("dep",) and a[1] == src + (n,)) for a in v)
                    for a in (v or ()):
                        if a[0] in ("in", "dep") and a[1] != src + (n,) and a[1][:-1] != src + (n,): good = False
                    R.check("OWNED", good, key, w, show); continue
                extra = frozenset([("c", 0)]) if n in tab(WITH_OWNED, dec) else frozenset()
                good = True
                if fl.get("arr"):
                    good = bool(subs) or v == frozenset([want])
                    for q, x in subs.items():
                        ws = ("in", src + q[1:])
                        if ws not in x or x - frozenset([ws, ("in", q)]): good = False
                else:
                    if v is not None and (want not in v or v - extra != frozenset([want])): good = False
                    for q, x in subs.items():
                        ws = ("in", src + q[1:])
                        if x != frozenset([ws]) and not (q[-1] == "*" and ws in x): good = False
                R.check("COPY", good, key, w, show)
        sl = short_loops(P, I, I.nfn)
        for g, j, why in sl: R.bad("WHOLE", "%s %s partial %s" % (sc, op, g.text(j)), g.at(j), "%s of %s: element copy %s %s" % (op, sc, g.text(j), why))
        for d, w in I.partial: R.bad("WHOLE", "%s %s partial %s" % (sc, op, ".".join(d)), w, "%s of %s: only part of %s is copied" % (op, sc, ".".join(d)))
        if not sl and not I.partial: R.ok("WHOLE", "%s %s" % (sc, op))
    for c, n in need.items():
        if n > 0:
            r = P.recs.get(c)
            if r is None: raise AnalysisError("class vanished: " + c)
            R.bad("COPY", c + " has no copy operation", "", "%s owns state but has no user-written copy constructor and assignment" % c) if any(m.get("kind") == "dtor" and not m.get("impl") for m in r["methods"]) else None
    # clone
    for cls in sorted(P.derived(M)):
        r = P.recs[cls]
        cl = [m for m in r["methods"] if m["n"] == "clone"]
        if re.match(r"reflex::PatternMatcher", cls): continue
        if not cl:
            own = [f for f in r["fields"]] or [m for m in r["methods"] if m.get("virt") and m.get("kind") is None and not m.get("impl")]
            R.check("CLONE", not own, cls + " clone", r.get("file", ""), "%s adds state or behaviour but inherits clone()" % cls); continue
        f = P.fn(cl[0]["id"])
        I = Interp(P, dyn=cls); hit = [f.n(i) for i in range(len(f.nodes)) if f.k(i) == "CXXConstructExpr" and f.n(i).get("cls") in P.derived(M)]
        good = any(n.get("cls") == cls for n in hit) and all(n.get("cls") == cls for n in hit)
        R.check("CLONE", good, cls + " clone", f.where(), "%s::clone() does not copy-construct a %s" % (cls, cls))

def fmt(v, subs):
    def a1(a):
        if a[0] == "in": return "old " + ".".join(a[1]) if a[1][0] == "this" else ".".join(a[1])
        if a[0] == "c": return str(a[1])
        if a[0] == "u": return "uninitialised"
        if a[0] == "dep": return "f(%s)" % ".".join(a[1])
        return a[0] if a[0] in ("new", "empty", "x") else str(a[1])[:30]
    s = []
    if v is not None: s.append("{" + ", ".join(sorted(map(a1, v))) + "}")
    for q, x in list(subs.items())[:4]: s.append(".".join(q[2:]) + "={" + ", ".join(sorted(map(a1, x))) + "}")
    return " ".join(s) or "nothing"

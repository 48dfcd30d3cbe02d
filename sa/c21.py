"""Emptiness dataflow: in every function that pops a stack, takes the first or last element of a container, shrinks a text by
computing size() - k, or dereferences an iterator, each such operation is an obligation: on every path of the control-flow graph
the container is known to hold enough elements (or the iterator was compared with the end of its container). Facts come from
conditions (empty(), size(), any(), iterator comparisons, also through variables and helper functions), from insertions, and from
class invariants of the form "the list is empty only if the counter is at its limit", which are verified over all methods of the class.
Operations a user of the library can call are analysed for any state of the object; helpers in the contexts they are called from."""
from core import *
import empt
LEVEL = "other"
API = {"pop_stops", "push_stops", "last_stop", "insert_stop", "delete_stop", "clear_stops", "indent", "dedent", "nodent", "match", "reset", "push_state", "pop_state", "top_state",
       "push_matcher", "pop_matcher", "state", "leaf", "clear", "wrap"}
UNITS = ["lib/pattern", "lib/convert", "lib/matcher", "lib/input", "src", "headers"]

def invariants(P, E, sites):
    """(container field, counter field, limit) candidates: a comparison of an integer field with a constant in a class whose methods need a non-empty container field"""
    out = {}
    for cls, r in P.recs.items():
        fs = {f["n"]: f.get("t", "") for f in P.fields(cls)}
        ms = [f for f in P.fns.values() if f.cls == cls and f.cfg]
        cont = set(); cnt = set()
        for f in ms:
            for i, nd in enumerate(f.nodes):
                if nd["k"] == "CXXMemberCallExpr" and nd.get("n") in empt.NEED:
                    o, _ = E.objof(f, nd); p = E.path(f, o) if o is not None else None
                    if p and p[0] == "this" and len(p) == 2 and E.iscont(fs.get(p[1], "")): cont.add(p[1])
                if nd["k"] == "BinaryOperator" and nd["op"] in ("<", ">", "<=", ">=", "==", "!="):
                    for a, b in (nd["c"], nd["c"][::-1]):
                        p = E.path(f, a); kv = f.n(f.strip(b)).get("cv", f.cv(b))
                        if p and p[0] == "this" and len(p) == 2 and kv and p[1] in fs and not E.iscont(fs[p[1]]): cnt.add((p[1], kv))
        for c in cont:
            for n, kv in cnt: out.setdefault(cls, set()).add((cls, n, c, kv))
    return out

def verify(P, E, cls, inv):
    """every constructor establishes and every method keeps: the container is empty only when the counter is at its limit"""
    (_, n, c, kv) = inv
    for f in P.fns.values():
        if f.cls != cls:
            for nd in f.nodes:
                if nd["k"] == "MemberExpr" and nd.get("d") in (cls + "::" + n, cls + "::" + c): return "%s uses %s" % (f.name, nd["n"])
    fs = [f for f in P.fns.values() if f.cls == cls and f.cfg]
    if not any(f.kind == "ctor" and not f.d.get("copyctor") for f in fs): return "no constructor sets %s" % n
    for f in fs:
        if f.kind == "dtor": continue
        for ex, ret in E.run(f, frozenset()):
            s = dict(ex)
            if s.get(("C", ("this", c))): continue
            sn = s.get(("S", ("this", n)))
            if sn == kv: continue
            if f.kind != "ctor" and ("M", ("this", n)) not in s and ("M", ("this", c)) not in s: continue
            return "%s may leave %s empty with %s other than %d" % (f.name, c, n, kv)
    return None

def check(R):
    R.rule("TAKE", "the container is known to be non-empty where its first or last element is read or removed", 20)
    R.rule("SHRINK", "size() - k is computed only of a text or container known to hold at least k", 1)
    R.rule("ITER", "an iterator is dereferenced only when it is known not to be at the end", 20)
    P = load(UNITS); R.units = P.tus
    E = empt.Empt(P, R)
    sites = set(); its = set()
    for f in P.fns.values():
        if not f.cfg: continue
        for i, nd in enumerate(f.nodes):
            if nd["k"] == "CXXMemberCallExpr" and nd.get("n") in empt.NEED:
                o, _ = E.objof(f, nd)
                if o is not None and E.iscont(E.otype(f, o)): sites.add(f.id)
            elif nd["k"] == "BinaryOperator" and nd["op"] == "-" and f.n(f.strip(nd["c"][0])).get("n") in empt.SIZES: sites.add(f.id)
            elif nd["k"] == "CXXOperatorCallExpr" and nd.get("op") in ("*", "->", "--", "++") and len(nd["c"]) <= 3 and "iterator" in f.n(f.strip(nd["c"][1])).get("t", ""): its.add(f.id)
    E.mark(sites)
    cand = invariants(P, E, sites)
    E.invn = {x for v in cand.values() for t in v for x in t[1:3]}
    for cls in cand:
        E.inv = {}
        good = []
        for inv in sorted(cand[cls]):
            E.memo.clear(); E.inv = {cls: [inv]}
            if verify(P, E, cls, inv) is None: good.append(inv)
        cand[cls] = good
    E.memo.clear(); E.sites.clear(); E.inv = {c: v for c, v in cand.items() if v}
    for c in E.inv:
        for v in E.inv[c]: R.note("invariant of %s: %s is empty only if %s is %d" % (c, v[2], v[1], v[3]))
    over = P.overrides(); entered = set()
    orig = E.run
    def run(G, ent):
        entered.add(G.id); return orig(G, ent)
    E.run = run
    todo = sorted(sites | its)
    roots = [x for x in todo if x not in E.callers or P.fns[x].name in API or over.get(x)]
    allroots = set(roots)
    for x in sorted(E.rel):
        if x not in E.callers and P.fns[x].cfg: allroots.add(x)
    for x in sorted(allroots): E.run(P.fns[x], frozenset())
    for x in todo:
        if x not in entered: E.run(P.fns[x], frozenset())
    for (fid, i, what), (ok, F, _, _, p, via) in sorted(E.sites.items(), key=lambda x: (x[0][0], x[0][1], x[0][2])):
        if F.name in ("hi", "lo") and "Ranges" in (F.cls or ""): continue     # documented to demand a non-empty range set: an obligation of the callers
        rule = "ITER" if what.startswith("*") or what == "--end" else "SHRINK" if what.startswith("size") else "TAKE"
        name = (F.cls.split("::")[-1] + "::" if F.cls else "") + F.name
        key = "%s %s in %s" % (what, F.text(i)[:60], name)
        R.check(rule, ok, key, F.at(i), "%s: %s is reached with the container possibly empty%s" % (name, F.text(i)[:80], (" (called from %s)" % " > ".join(via[-4:-1])) if via and len(via) > 1 else ""))

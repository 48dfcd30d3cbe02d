"""Refills of the matcher's buffer. Each operation of the abstract matcher is evaluated in an affine domain with the operations it
calls inlined and loops summarised by inductive facts (aff.py, buf.py). Obligations at every read of input: the destination is
buf_ + end_, and the facts of the path entail that the count requested is at most max_ - end_; the next value given to end_ is its
value at the read plus the count returned, and each read is accounted for before the operation ends. eof_ is set only where the
facts entail that the last read returned nothing and that wrap() declined afterwards. At the end of every public operation
end_ < max_ (room for the terminator), pos_ <= end_, blk_ <= BLOCK and the text lies within the data. All other writes and block
moves stay below buf_ + max_. Every function that delivers input into
(s, n) is evaluated likewise (rd.py): it writes only to [s, s+n), without gaps, and returns what it wrote."""
from core import *
import buf, rd
from buf import M, T, L, N, prove
from c05 import methods, access, hook, helpers

RULES = {"BOUNDS": ("reads, writes and block moves stay in the free part of the buffer", 60), "ACCOUNT": ("what was read is added to end_", 20),
         "EOF": ("end of input only after an empty read and a declined wrap()", 20), "INV": ("window facts hold after each operation", 150)}

def check(R):
    P = load(["headers", "flex", "lib"]); R.units = P.tus
    for r, (t, n) in RULES.items(): R.rule(r, t, n)
    R.rule("DEST", "functions that deliver input write only into the space they are given", 15)
    R.rule("DENSE", "what they deliver has no gaps", 15)
    R.rule("COUNT", "what they return is the number of bytes delivered, at most what was asked for", 15)
    R.rule("ROOM", "grow() leaves the room asked for plus one", 2)
    acc = access(P); ms = methods(P)
    ms = [f for f in ms if not hook(f) or f.name == "init"]
    if len(ms) < 40: raise AnalysisError("methods of %s vanished" % M)
    inner = helpers(P, ms, acc)
    def one(S, k):
        f, d = k
        E, H, res = buf.analyse(P, f, d, hooks=GrowHooks if f.name == "grow" else None)
        pub = acc.get(f.id, 0) == 0
        for rule, ok, key, where, what in E.reports:
            if rule not in RULES: continue
            if not pub and (rule == "INV" or f.id in inner): continue
            if f.name == "grow" and rule == "BOUNDS": continue
            if not ok and d and not pub: continue
            if ok: S.ok(rule, key)
            else: S.bad(rule, key, where, what)
        if f.name == "grow" and not d:
            for s, v in res:
                if not isinstance(v, L): continue
                need = H.need
                ok = prove(s, s.mem[T("max_")] - s.mem[T("end_")] - need - 1)
                S.check("ROOM", ok, "ROOM: grow", f.where(), "a path through grow() does not ensure that the requested room and one more byte are free")
                if s.x.get("alloc") is not None:
                    S.check("ROOM", isinstance(s.x["alloc"], L) and s.x["alloc"] == s.mem[T("max_")], "ROOM: allocation", f.where(), "the buffer is allocated with a size other than max_")
    R.parallel(one, [(f, d) for f in ms for d in (False, True)])
    def deliver(S, f):
        E, H, res = rd.analyse(P, f)
        for rule, ok, key, where, what in E.reports:
            if rule not in ("DEST", "DENSE", "COUNT"): continue
            if ok: S.ok(rule, f.cls + " " + key)
            else: S.bad(rule, key, where, "%s::%s: %s" % (f.cls, f.name, what))
    R.parallel(deliver, rd.functions(P))
    for c in sorted(P.derived(M)):
        for m in P.recs[c]["methods"]:
            f = P.fns.get(m["id"])
            if f is None: continue
            for i, nd in enumerate(f.nodes):
                if nd["k"] == "BinaryOperator" and nd["op"] == "=" and f.path(nd["c"][0]) == T("end_"):
                    R.bad("ACCOUNT", "ACCOUNT: %s: %s" % (f.name, f.text(i)), f.at(i), "an engine sets the end of the buffered data (%s)" % f.text(i))

class GrowHooks(buf.Hooks):
    def __init__(self, P, block): super().__init__(P, block); self.ingrow = True
    def initial(self, E, d):
        return super().initial(E, d)

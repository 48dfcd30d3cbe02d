"""Displaced character discipline. text() puts a zero at txt_[len_] and keeps the character in chr_. Every operation of the abstract
matcher is evaluated in an affine domain (aff.py, buf.py) from both a clean and a terminated text, with the operations it calls
inlined: while the text is terminated, no read or write of the buffer may touch the terminated position (shown from the facts of
the path), the buffer is not grown, shifted, searched across or read into, the text window is not moved, and chr_ is put back
exactly where it came from; chr_ is used as an input character only where the position read is the terminated one. The engines'
own functions (match() of each engine and everything they call) are covered by an interprocedural typestate analysis over their
control flow graphs with the summaries so obtained."""
from core import *
import buf
from buf import M, T
import types

# called by generated code while a match is in progress (the text was reset when it began)
def midmatch(f): return f.name.startswith("FSM_")
def hook(f): return "::get(char *" in f.id or f.name in ("wrap", "init", "LexerInput")

def methods(P):
    return [f for f in sorted(P.fns.values(), key=lambda f: (f.line, f.id)) if f.cls == M and f.kind not in ("ctor", "dtor", "copyctor", "copyassign") and f.cfg is not None and not f.d.get("static")]
def access(P):
    acc = {}
    for r in P.recs.values():
        for m in r["methods"]: acc[m["id"]] = m.get("access", 0)
    return acc

def helpers(P, ms, acc):
    """non-public operations that others call: judged where they are called (grow() has a summary of its own)"""
    called = set()
    for f in ms:
        for nd in f.nodes:
            if nd["k"] in ("CallExpr", "CXXMemberCallExpr") and nd.get("fn") and nd["fn"] != f.id: called.add(nd["fn"])
    return {f.id for f in ms if f.id in called and acc.get(f.id, 0) != 0 and f.name not in ("grow", "lineno")}

def check(R):
    P = load(["headers", "flex", "lib"]); R.units = P.tus
    R.rule("RESTORE", "buffer accesses, shifts and window moves with the text terminated", 150)
    R.rule("ENGINE", "engine functions touch the buffer only after the displaced character was put back", 60)
    acc = access(P)
    ms = [f for f in methods(P) if not hook(f) or f.name == "init"]
    if len(ms) < 40: raise AnalysisError("methods of %s vanished" % M)
    inner = helpers(P, ms, acc)
    def one(S, k):
        f, d = k
        E, H, res = buf.analyse(P, f, d)
        pub = acc.get(f.id, 0) == 0
        exits = sorted({s.x["cs"] for s, _ in res})
        bad = False
        for rule, ok, key, where, what in E.reports:
            if rule != "RESTORE": continue
            if not ok and not pub and (d or f.id in inner): bad = True; continue        # needs a clean text: callers are checked
            if ok: S.ok("RESTORE", key)
            else: S.bad("RESTORE", key, where, what)
        return f.id, d, exits, bad
    S = {}
    for fid, d, exits, bad in R.parallel(one, [(f, d) for f in ms for d in (False, True)]): S[(fid, d)] = (exits, bad)
    engines(R, P, S, acc)

class Flow:
    def __init__(self, R, P, S, dyn): self.R = R; self.P = P; self.S = S; self.dyn = dyn; self.memo = {}
    def summary(self, fid, d, name):
        """(exit states, needs a clean text) of calling fid on this"""
        t = self.P.final_overrider(self.dyn, fid)
        f = self.P.fns.get(t)
        if (t, d) in self.S: return self.S[(t, d)]
        if f is None or f.cfg is None or f.cls is None: return ([("D" if d else "C")], False)
        if f.cls == M or (f.cls != self.dyn and M not in self.P.bases(f.cls) and f.cls != M): return ([("D" if d else "C")], False)
        return self.run(f, d)
    def run(self, f, d):
        k = (f.id, d)
        if k in self.memo: return self.memo[k]
        self.memo[k] = ([("D" if d else "C")], False)           # recursion
        inst = {f.entry: {("D" if d else "C")}}; work = [f.entry]; bad = []; n = 0
        while work:
            b = work.pop(); st = set(inst[b]); B = f.cfg[b]
            for e in B["e"]:
                if isinstance(e, dict): continue
                st = self.elem(f, e, st, bad)
            if B.get("noret"): continue
            for j, s in enumerate(B["s"]):
                if s is None: continue
                ns = self.refine(f, B, j, st)
                old = inst.setdefault(s, set())
                if not ns <= old: inst[s] = old | ns; work.append(s)
        self.memo[k] = (sorted(inst.get(f.exit, ())), bool(bad))
        self.bad = getattr(self, "bad", {}); self.bad[k] = bad
        return self.memo[k]
    def refine(self, f, B, j, st):
        if "cond" not in B or len(B["s"]) != 2: return st
        i = f.strip(B.get("lc", B["cond"])); t = j == 0; nd = f.n(i)
        while nd["k"] == "UnaryOperator" and nd["op"] == "!": t = not t; i = f.strip(nd["c"][0]); nd = f.n(i)
        if nd["k"] == "BinaryOperator" and nd["op"] in ("==", "!="):
            for a, b in ((0, 1), (1, 0)):
                if f.path(nd["c"][a]) == T("chr_") and f.cv(nd["c"][b]) == 0:
                    clean = (nd["op"] == "==") == t
                    return st & ({"C"} if clean else {"D"})
        return st
    def elem(self, f, i, st, bad):
        nd = f.n(i); k = nd["k"]; c = nd.get("c", ())
        if not st: return st
        def need(what):
            if "D" in st: bad.append((f, i, what))
            else: self.okn += 1
        if k == "BinaryOperator" and nd["op"] == "=" or k == "CompoundAssignOperator":
            p = f.path(c[0])
            if p == T("chr_"): return {"C"} if f.cv(c[1]) == 0 else {"D"}
            if p in (T("txt_"), T("len_")) : need("moves the text window (%s)" % f.text(i))
        if (k == "UnaryOperator" and nd["op"] == "*") or k == "ArraySubscriptExpr":
            b = f.path(c[0])
            r = self.root(f, c[0])
            if r in ("buf_", "txt_"): need("accesses %s" % f.text(i))
        if k in ("CallExpr", "CXXMemberCallExpr", "CXXOperatorCallExpr"):
            fid = nd.get("fn")
            if fid is None: return st
            obj = None
            if nd.get("mem"):
                me = f.n(f.strip(c[0]))
                if me["k"] == "MemberExpr" and me.get("c"): obj = f.path(me["c"][0])
            if obj == ("this",):
                out = set()
                q = f.n(f.strip(c[0]))
                for s in st:
                    ex, b = self.summary(fid, s == "D", nd.get("n"))
                    if b: bad.append((f, i, "calls %s" % f.text(i)))
                    out |= set(ex)
                self.okn += 1
                return out
            for a in c[1:]:
                if f.n(a).get("t", "").replace("const ", "").strip() in ("char *", "unsigned char *", "void *") and self.root(f, a) in ("buf_", "txt_"):
                    need("passes %s to %s" % (f.text(a), nd.get("n", "a function")))
        return st
    def root(self, f, i, d=0):
        """member the pointer expression is computed from"""
        if i is None or i < 0 or d > 20: return None
        for j in f.walk(i):
            n = f.n(j)
            if n["k"] == "MemberExpr" and n.get("dk") == "field" and n["n"] in ("buf_", "txt_") and f.path(j) == T(n["n"]): return n["n"]
        return None

def engines(R, P, S, acc):
    classes = sorted(c for c in P.derived(M))
    leaf = [c for c in classes]
    seen = set()
    for dyn in leaf:
        F = Flow(R, P, S, dyn); F.okn = 0
        entry = []
        for c in [dyn] + [b for b in P.bases(dyn) if M in P.bases(b)]:
            for m in P.recs[c]["methods"]:
                f = P.fns.get(m["id"])
                if f is None or f.cfg is None or f.kind in ("ctor", "dtor", "copyctor", "copyassign") or f.d.get("static") or hook(f): continue
                if P.final_overrider(dyn, f.id) != f.id: continue
                if f.name == "match" or (acc.get(f.id, 0) == 0 and not midmatch(f)): entry.append((f, True))
                elif midmatch(f): entry.append((f, False))
        for f, d in entry:
            for dd in ([False, True] if d else [False]):
                before = F.okn
                ex, bad = F.run(f, dd)
                key = "%s::%s%s" % (f.cls, f.name, " (text terminated)" if dd else "")
                if not bad:
                    if (f.id, dd) not in seen: R.ok("ENGINE", key + ": %d accesses and calls" % (F.okn - before))
                else:
                    for g, i, what in F.bad[(f.id, dd)]:
                        R.bad("ENGINE", "ENGINE: %s: %s" % (g.name, what), g.at(i), "%s while the character displaced by text() has not been put back (entered through %s)" % (what, key))
                seen.add((f.id, dd))

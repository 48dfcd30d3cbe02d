"""Positions saved across buffer moves. (1) grow() is evaluated in the affine domain (aff.py, buf.py) on all paths: with g the distance by
which the end of the data moved, every index into the buffer decreased by g, every pointer into it has the same offset from the (new)
buffer less g, num_ grew by g, and exactly the data from g on was moved to the start of the buffer in use. (2) In every function of the
matcher classes a dataflow analysis gives each local and expression its dependence on the place of the buffer and on the distance
shifted (buf_: place; txt_, lpb_, bol_: both; pos_, cur_, end_, ind_: distance; num_: minus distance). Calls from which grow() is
reachable make such locals stale: a stale value must not be dereferenced, mixed with current positions, passed on, returned or
stored. Members other than those grow() adjusts must not hold such a value. (3) A regex iterator over the buffer is renewed after
each move before it is used."""
from core import *
import buf
from buf import M, T, L, N, prove
from c05 import hook
from c07 import GrowHooks

VEC = {"buf_": (1, 0), "txt_": (1, 1), "lpb_": (1, 1), "bol_": (1, 1), "cur_": (0, 1), "pos_": (0, 1), "end_": (0, 1), "ind_": (0, 1), "num_": (0, -1)}
Z = (0, 0); U = None; O = "offsets"     # U: pointer of unknown origin, O: array of offsets from buf_
CALLS = ("CallExpr", "CXXMemberCallExpr", "CXXOperatorCallExpr")

class RebaseHooks(GrowHooks):
    def initial(self, E, d):
        st = super().initial(E, d)
        self.e0 = dict(st.mem)
        st.x["seen"] = {n: (st.mem[T(n)],) for n in ("lpb_", "bol_")}
        return st
    def store(self, F, st, p, v, i):
        if p in (T("lpb_"), T("bol_")) and isinstance(v, L): st.x["seen"] = dict(st.x["seen"]); st.x["seen"][p[1]] += (v,)
        return super().store(F, st, p, v, i)
    def call(self, F, st, i, fid, obj, args, av):
        r = super().call(F, st, i, fid, obj, args, av)
        if r and fid and fid.split("(")[0].endswith("::lineno"):
            for s, v in r:
                s.x["seen"] = dict(s.x["seen"])
                for n in ("lpb_", "bol_"):
                    if isinstance(s.mem.get(T(n)), L): s.x["seen"][n] += (s.mem[T(n)],)
        return r

def eq(st, a, b): return isinstance(a, L) and isinstance(b, L) and (a == b or (prove(st, a - b) and prove(st, b - a)))

def rebase(R, P):
    g = [f for f in P.fns.values() if f.cls == M and f.name == "grow" and f.cfg]
    if len(g) != 1: raise AnalysisError("function that makes room in the buffer not found")
    f = g[0]
    E, H, res = buf.analyse(P, f, False, hooks=RebaseHooks)
    e = lambda n: H.e0[T(n)]
    for s, v in res:
        if not isinstance(v, L): continue
        m = lambda n: s.mem[T(n)]
        if not isinstance(m("end_"), L): R.bad("REBASE", "REBASE: end_", f.where(), "the end of the data after making room is not a function of the one before"); continue
        gap = e("end_") - m("end_")
        if v.const() == 0:
            for n in VEC: R.check("REBASE", eq(s, m(n), e(n)) or n in ("lpb_", "bol_"), "REBASE: no move: " + n, f.where(), "%s changes although grow() says that the buffer was not moved" % n)
            continue
        for n in ("cur_", "pos_", "ind_"): R.check("REBASE", eq(s, e(n) - m(n), gap), "REBASE: " + n, f.where(), "%s is not moved by the same distance as the data" % n)
        R.check("REBASE", eq(s, m("num_") - e("num_"), gap), "REBASE: num_", f.where(), "num_ does not count the distance by which the data was moved")
        R.check("REBASE", eq(s, (e("txt_") - e("buf_")) - (m("txt_") - m("buf_")), gap), "REBASE: txt_", f.where(), "txt_ is not at the same place in the data after the move")
        for n in ("lpb_", "bol_"):
            if not isinstance(m(n), L): continue
            off = m(n) - m("buf_")
            cands = list(s.x["seen"][n]) + ([s.mem[T("txt_")] - m("buf_") + e("buf_") + gap] if False else [])
            ok = any(eq(s, (r - e("buf_")) - off, gap) for r in cands)
            R.check("REBASE", ok, "REBASE: " + n, f.where(), "%s is not at the same place in the data after the move" % n)
        # the data itself
        mv = s.x.get("moves", ()); nb = m("buf_"); dst_ok = prove(s, m("end_").mul(-1)) or (eq(s, gap, N(0)) and eq(s, nb, e("buf_")))
        cur = {None: (e("buf_"), gap)}
        for d, a, k in mv:
            if eq(s, a, e("buf_") + gap) and isinstance(k, L) and prove(s, k - m("end_")) and (eq(s, d, nb) or eq(s, d, e("buf_"))): dst_ok = True if eq(s, d, nb) or s.x.get("alloc") is not None and s.x.get("src") is not None and eq(s, s.x["src"], d) else dst_ok
        if not mv and s.x.get("alloc") is not None and s.x.get("src") is not None and eq(s, gap, N(0)) and eq(s, s.x["src"], e("buf_")): dst_ok = True
        R.check("REBASE", dst_ok, "REBASE: data", f.where(), "the data buffered (from the distance moved up to its end) need not be at the start of the buffer afterwards")

# ---------------------------------------------------------------- stale positions
# A kind is (v, o): v the dependence on the current place of the buffer and distance shifted, o the dependence on an earlier one (MIX: on
# several). A value is stale when o is not (0, 0). A state is a map from locals (and fields of local records) to sets of kinds; a block
# has a set of states.
NEW = (0, 0); MIX = "mix"
CAP = 40
MAXV = 2

def fresh(v): return (v, NEW)
def shifted(ks, epochs):
    out = set()
    for v, o in ks:
        if v in (U, O): out.add((v, MIX))
        elif v == Z: out.add((v, MIX if o not in (NEW,) and epochs else o))
        else: out.add((Z, v) if o == NEW else (Z, MIX))
    return frozenset(out)

class Flow:
    def __init__(self, P, R, movers): self.P = P; self.R = R; self.movers = movers; self.memo = {}; self.sink = None; self.nuse = 0; self.nmem = set(); self.depth = 0; self.pst = {}; self.memo = {}
    def summary(self, fid, seeds=()):
        """(kinds of what a method returns, kinds left in its reference parameters by (index, fields), those stored otherwise)"""
        key = (fid, seeds)
        if key in self.memo: return self.memo[key]
        self.memo[key] = (frozenset(), {}, {})
        f = self.P.fns.get(fid)
        if f is None or f.cfg is None or not self.hier(f.cls) or f.name == "grow" or self.depth > 5: return self.memo[key]
        save = self.sink, self.pst; self.sink = None; self.pst = {}; self.depth += 1
        env = {}
        for (k, fl), ks in seeds:
            if k < len(f.params): env[(f.params[k]["d"], fl) if fl else f.params[k]["d"]] = ks
        out, ends = self.run(f, env)
        left = {}
        for k, pm in enumerate(f.params):
            if not (pm["t"].endswith("&") and not pm["t"].startswith("const ") or pm["t"].endswith("*")): continue
            for e in ends:
                for x, ks in e.items():
                    if x == pm["d"] and pm["t"].endswith("&"): left[(k, ())] = left.get((k, ()), frozenset()) | ks
                    elif isinstance(x, tuple) and x[0] == pm["d"]: left[(k, x[1])] = left.get((k, x[1]), frozenset()) | ks
            if pm["t"].endswith("&"): left.setdefault((k, ()), frozenset())
        self.memo[key] = (frozenset((v, o) for v, o in out if o == NEW), left, {})
        self.sink, self.pst = save; self.depth -= 1
        return self.memo[key]
    def hier(self, c): return c is not None and (c == M or M in self.P.bases(c))
    def liveness(self, f):
        gen, kill = {}, {}
        def uses(i):
            skip = {f.strip(f.c(y)[0]) for y in f.walk(i) if f.k(y) == "BinaryOperator" and f.n(y)["op"] == "="}
            return {f.n(y)["d"] for y in f.walk(i) if f.k(y) == "DeclRefExpr" and y not in skip}
        for b, B in f.cfg.items():
            g, k = set(), set()
            for c in ("cond", "lc"):
                if B.get(c) is not None: g |= uses(B[c])
            for e in reversed(B["e"]):
                if isinstance(e, dict): continue
                nd = f.n(e)
                if nd["k"] == "DeclRefExpr": continue
                if nd["k"] == "DeclStmt":
                    for d in nd["decls"]: g.discard(d["d"]); k.add(d["d"])
                    for d in nd["decls"]:
                        if d["i"] >= 0: g |= uses(d["i"])
                    continue
                if nd["k"] == "BinaryOperator" and nd["op"] == "=" and f.k(f.strip(nd["c"][0])) == "DeclRefExpr":
                    d = f.n(f.strip(nd["c"][0]))["d"]; g.discard(d); k.add(d)
                if nd["k"] == "ReturnStmt":
                    if nd["e"] >= 0: g |= uses(nd["e"])
                    continue
                g |= uses(e)
            gen[b], kill[b] = g, k
        self.uses = uses
        live = {b: set(gen[b]) for b in f.cfg}; ch = True
        al = f.alias()
        while ch:
            ch = False
            for b, B in f.cfg.items():
                n = set(gen[b])
                for s in B["s"]:
                    if s is not None: n |= live[s] - kill[b]
                if n != live[b]: live[b] = n; ch = True
        refs = {f.n(y)["d"] for a in al.values() for y in f.walk(a) if f.k(y) == "DeclRefExpr"}
        if not hasattr(self, "after"): self.after = {}      # moving call -> locals live after it
        for b, B in f.cfg.items():
            if not any(not isinstance(e, dict) and f.n(e).get("fn") in self.movers for e in B["e"]): continue
            g = set().union(set(), *[live[s] for s in B["s"] if s is not None])
            for c in ("cond", "lc"):
                if B.get(c) is not None: g |= uses(B[c])
            for e in reversed(B["e"]):
                if isinstance(e, dict): continue
                nd = f.n(e)
                if nd["k"] in CALLS: self.after[(f.id, e)] = g | refs
                g = set(g)
                if nd["k"] == "DeclRefExpr": continue
                if nd["k"] == "DeclStmt":
                    for d in nd["decls"]: g.discard(d["d"])
                    for d in nd["decls"]:
                        if d["i"] >= 0: g |= uses(d["i"])
                    continue
                if nd["k"] == "BinaryOperator" and nd["op"] == "=" and f.k(f.strip(nd["c"][0])) == "DeclRefExpr": g.discard(f.n(f.strip(nd["c"][0]))["d"])
                if nd["k"] == "ReturnStmt":
                    if nd["e"] >= 0: g |= uses(nd["e"])
                    continue
                g |= uses(e)
        return {b: v | refs for b, v in live.items()}
    def run(self, f, env0=()):
        freeze = lambda env: frozenset((k, v) for k, v in env.items() if v)
        inst = {f.entry: {freeze(dict(env0))}}; work = [f.entry]; ret = set(); n = 0; live = self.liveness(f)
        at = {}; cross = set()
        for b, B in f.cfg.items():
            for e in B["e"]:
                if not isinstance(e, dict): at[e] = b
        for e, b in at.items(): cross |= {x for x in f.walk(e) if f.k(x) in CALLS and at.get(x, b) != b}
        done = {}; par = {pm["d"] for pm in f.params}
        while work:
            b = work.pop(); n += 1
            if n > 3000: raise AnalysisError("analysis of positions in %s does not end" % f.id)
            new = inst[b] - done.get(b, set()); done[b] = set(inst[b])
            for env in new:
                for s, ne in self.block(f, b, dict(env), ret, True):
                    ne = freeze({k: v for k, v in ne.items() if (k[0] if isinstance(k, tuple) else k) in live[s] or isinstance(k, tuple) and k[0] == "ret" and k[1] in cross or (k[0] if isinstance(k, tuple) else k) in par})
                    cur = inst.setdefault(s, set())
                    if ne in cur: continue
                    cur.add(ne)
                    if len(cur) > CAP:
                        m = {}
                        for e in cur:
                            for k, v in e: m[k] = m.get(k, frozenset()) | v
                        inst[s] = {freeze(m)}
                        if done.get(s) and freeze(m) in done[s]: continue
                    if s not in work: work.append(s)
        if self.sink is not None:
            for b in sorted(inst):
                for env in inst[b]: self.block(f, b, dict(env), ret, False)
        return ret, [dict(e) for e in inst.get(f.exit, ())]
    def block(self, f, b, env, ret, quiet):
        B = f.cfg[b]; pre = None; out = []
        sink = self.sink
        if quiet: self.sink = None
        for e in B["e"]:
            if isinstance(e, dict): continue
            if f.k(e) in CALLS: pre = dict(env)
            self.elem(f, e, env, ret)
        self.sink = sink
        if B.get("noret"): return out
        for j, s in enumerate(B["s"]):
            if s is None: continue
            ne = env
            if "cond" in B and len(B["s"]) == 2 and pre is not None:
                i = f.strip(B.get("lc", B["cond"])); t = j == 0; nd = f.n(i)
                while nd["k"] == "UnaryOperator" and nd["op"] == "!": t = not t; i = f.strip(nd["c"][0]); nd = f.n(i)
                if nd["k"] in CALLS and self.isgrow(nd.get("fn")) and not t: ne = pre
            out.append((s, ne))
        return out
    def isgrow(self, fid): return fid is not None and fid.startswith(M + "::grow(")
    def report(self, f, i, what, rule="STALE"):
        if self.sink is not None: self.sink(f, i, what, rule)
    def lvar(self, f, i):
        """key of a local variable or of a field of a local record"""
        nd = f.n(i); fl = []
        while nd["k"] == "MemberExpr" and nd.get("c"): fl.append(nd["n"]); i = f.strip(nd["c"][0]); nd = f.n(i)
        if nd["k"] != "DeclRefExpr" or nd.get("dk") not in ("var", "parm"): return None
        if not fl: return nd["d"]
        if nd["d"] in f.alias() or nd["dk"] != "parm" and (nd.get("t", "").endswith("&") or "*" in nd.get("t", "")): return None
        return (nd["d"], tuple(reversed(fl)))
    def kinds(self, f, i, env):
        """set of kinds the value of an expression may have"""
        if i is None or i < 0: return frozenset()
        nd = f.n(i); k = nd["k"]; c = nd.get("c", ())
        if nd.get("cv") is not None: return frozenset()
        if k in STRIP and c: return self.kinds(f, c[0], env)
        if k == "MemberExpr":
            if nd.get("dk") == "field" and nd["n"] in VEC and f.path(i) == T(nd["n"]): return frozenset([fresh(VEC[nd["n"]])])
            v = self.lvar(f, i)
            if v is not None and v in env: return env[v]
            if re.search(r"char \*( ?const)?$", nd.get("t", "")): return frozenset([fresh(U)])
            return frozenset()
        if k == "DeclRefExpr":
            al = f.alias().get(nd["d"])
            if al is not None: return self.kinds(f, al, env)
            out = env.get(nd["d"], frozenset())
            for x, v in env.items():
                if isinstance(x, tuple) and x[0] == nd["d"]: out |= v
            return out
        if k == "ConditionalOperator": return self.kinds(f, c[1], env) | self.kinds(f, c[2], env)
        if k == "UnaryOperator":
            if nd["op"] in ("++", "--", "+"): return self.kinds(f, c[0], env)
            if nd["op"] == "&" and f.k(f.strip(c[0])) == "ArraySubscriptExpr":
                x = f.c(f.strip(c[0])); return self.comb("+", self.kinds(f, x[0], env), self.kinds(f, x[1], env))
            if nd["op"] == "-": return self.comb("-", frozenset(), self.kinds(f, c[0], env))
            return frozenset()
        if k == "BinaryOperator":
            if nd["op"] in ("+", "-"): return self.comb(nd["op"], self.kinds(f, c[0], env), self.kinds(f, c[1], env))
            if nd["op"] in ("=", ","): return self.kinds(f, c[1], env)
            return frozenset()
        if k == "CompoundAssignOperator": return self.kinds(f, c[0], env)
        if k == "ArraySubscriptExpr": return frozenset(((0, 1), o) for v, o in self.kinds(f, c[0], env) if v is O)
        if k in CALLS:
            fid = nd.get("fn"); t = nd.get("t", "")
            if fid and fid.startswith("pcre2_get_ovector_pointer"): return frozenset([fresh(O)])
            if ("ret", i) in env: return env[("ret", i)]
            if fid and self.hier("::".join(fid.split("(")[0].split("::")[:-1])): return frozenset()
            if t.replace("const ", "").strip() in ("char *", "void *", "unsigned char *", "int8_t *", "uint8_t *"):
                out = frozenset()
                for a in c[1:]:
                    if f.n(a).get("t", "").strip().endswith("*"): out |= self.kinds(f, a, env)
                return out or frozenset([fresh(U)])
            if fid and re.search(r"std::(min|max)\b", fid):
                return frozenset().union(*[self.kinds(f, a, env) for a in c[1:]])
        return frozenset()
    def comb(self, op, a, b):
        out = set(); g = 1 if op == "+" else -1
        for v, o in a or [fresh(Z)]:
            for w, p in b or [fresh(Z)]:
                st = MIX if MIX in (o, p) or (v in (U, O) or w in (U, O)) and (o != NEW or p != NEW) else None
                if v is O or w is O: out.add((O, st or NEW)); continue
                if v is U or w is U: out.add((U, st or NEW)); continue
                r = (v[0] + g * w[0], v[1] + g * w[1]); q = st or (o[0] + g * p[0], o[1] + g * p[1])
                if max(abs(x) for x in r) > MAXV or q is not MIX and max(abs(x) for x in q) > MAXV: continue
                out.add((r, q))
        return frozenset(x for x in out if x != (Z, NEW))
    def stale(self, ks): return any(o != NEW for v, o in ks)
    def elem(self, f, i, env, ret):
        nd = f.n(i); k = nd["k"]; c = nd.get("c", ())
        if k == "DeclStmt":
            for d in nd["decls"]:
                for x in [x for x in env if isinstance(x, tuple) and x[0] == d["d"]]: del env[x]
                if d["i"] >= 0 and not d["t"].endswith("&"):
                    ks = self.kinds(f, d["i"], env); self.use(f, d["i"], ks, "is kept in %s" % d["d"].split(":")[-1], True); env[d["d"]] = ks
                else: env.pop(d["d"], None)
            return
        if k == "BinaryOperator" and nd["op"] == "=": self.assign(f, i, c[0], self.kinds(f, c[1], env), env); return
        if k == "CompoundAssignOperator" and nd["op"] in ("+=", "-="):
            self.assign(f, i, c[0], self.comb(nd["op"][0], self.kinds(f, c[0], env), self.kinds(f, c[1], env)), env); return
        if k == "BinaryOperator" and nd["op"] in ("<", ">", "<=", ">=", "==", "!="):
            a, b = self.kinds(f, c[0], env), self.kinds(f, c[1], env)
            if (self.stale(a) or self.stale(b)) and not (f.cv(c[0]) == 0 or f.cv(c[1]) == 0):
                if self.stale(self.comb("-", a, b)): self.report(f, i, "compares %s" % f.text(i))
            else: self.nuse += bool(a or b)
            return
        if k == "UnaryOperator" and nd["op"] == "*": self.use(f, i, self.kinds(f, c[0], env), "is read"); return
        if k == "ArraySubscriptExpr":
            ks = self.comb("+", self.kinds(f, c[0], env), self.kinds(f, c[1], env))
            if not any(v is O for v, o in ks): self.use(f, i, ks, "is read")
            return
        if k == "ReturnStmt":
            ks = self.kinds(f, nd["e"], env) if nd["e"] >= 0 else frozenset()
            self.use(f, i, ks, "is returned"); ret |= ks; return
        if k in CALLS:
            fid = nd.get("fn")
            o = f.n(f.strip(c[0])) if nd.get("mem") and c else {}
            o = f.path(o["c"][0]) if o.get("k") == "MemberExpr" and o.get("c") else None
            keep = o and o[0] == "this" and len(o) > 1 and nd.get("n") in ("push_back", "emplace_back", "push", "insert", "emplace", "assign", "resize")
            args = c[1:] if nd.get("mem") or nd["k"] == "CXXOperatorCallExpr" or True else c
            g = self.P.fns.get(fid); own = g is not None and self.hier(g.cls)
            seeds = {}; out = {}
            for k, a in enumerate(args):
                ks = self.kinds(f, a, env); pt = g.params[k]["t"] if own and k < len(g.params) else ""
                if keep and self.kept(ks): self.report(f, i, "keeps a buffer position in %s, which is not adjusted when the buffer moves (%s)" % (".".join(o[1:]), f.text(i)), "MEMBER")
                x = f.strip(a); out_ = pt.endswith("&") and not pt.startswith("const ")
                if f.k(x) == "UnaryOperator" and f.n(x)["op"] == "&" and pt.endswith("*"): x = f.strip(f.c(x)[0]); out_ = True
                key = self.lvar(f, x)
                if out_: out[k] = (x, key)
                else: self.use(f, a, ks, "is passed to %s" % nd.get("n", "a function"))
                if own:
                    if out_ and isinstance(key, str):
                        for y, v in env.items():
                            if isinstance(y, tuple) and y[0] == key and v: seeds[(k, y[1])] = v
                        if key in env and env[key]: seeds[(k, ())] = env[key]
                    elif ks: seeds[(k, ())] = ks
            r = self.summary(fid, tuple(sorted(seeds.items(), key=str))) if own else (frozenset(), {}, {})
            if fid in self.movers:
                la = self.after.get((f.id, i))
                fr = any(v not in (U, O, Z) for x, ks in env.items() for v, o in ks if la is None or (x[0] if isinstance(x, tuple) else x) in la)
                for d in list(env): env[d] = shifted(env[d], fr)
            for (k, fl), ks in r[1].items():
                if k not in out: continue
                x, key = out[k]
                if key is None:
                    if self.kept(ks) and fl and not self.toparm(f, x): self.report(f, i, "keeps a buffer position in %s, which is not adjusted when the buffer moves" % f.text(x), "MEMBER")
                    continue
                if isinstance(key, str): env[(key, fl) if fl else key] = ks
                elif not fl: env[key] = ks
            if own: env[("ret", i)] = r[0]
    def toparm(self, f, i): return self.lvar(f, i) is not None
    def kept(self, ks): return any(v not in (Z, U, O) for v, o in ks)
    def use(self, f, i, ks, what, copy=False):
        if self.stale(ks):
            if copy: return       # a copy of a stale value is as stale: reported where it is used
            self.report(f, i, "%s %s" % (f.text(i), what))
        elif any(v != Z for v, o in ks): self.nuse += 1
    def assign(self, f, i, lhs, ks, env):
        l = f.strip(lhs); nd = f.n(l); key = self.lvar(f, l)
        if key is not None:
            self.use(f, i, ks, "is kept", True); env[key] = ks; return
        p = f.path(l)
        if self.stale(ks): self.report(f, i, "%s stores it" % f.text(i)); return
        if self.sink is None: return
        if p is not None and p[0] == "this" and len(p) == 2 and p[1] in VEC:
            self.nmem.add(i)
            if p[1] != "num_" and any(v not in (Z, U, O, VEC[p[1]]) and not (v == (1, 0) and VEC[p[1]] == (1, 1)) for v, o in ks):
                self.report(f, i, "stores a value of another kind in a saved position (%s)" % f.text(i), "MEMBER")
        elif p is not None and p[0] == "this" and len(p) >= 2:
            if self.kept(ks): self.report(f, i, "keeps a buffer position in %s, which is not adjusted when the buffer moves (%s)" % (".".join(p[1:]), f.text(i)), "MEMBER")
            else: self.nmem.add(i)
        elif nd["k"] in ("MemberExpr", "ArraySubscriptExpr") and self.kept(ks):
            self.report(f, i, "keeps a buffer position in %s, which is not adjusted when the buffer moves" % f.text(i), "MEMBER")

def movers(P):
    """functions from which grow() of the matcher is reachable"""
    call = {}
    for f in P.fns.values():
        s = call.setdefault(f.id, set())
        for nd in f.nodes:
            if nd["k"] in CALLS and nd.get("fn"): s.add(nd["fn"]); s.update(P.impls(nd["fn"]) if nd.get("mem") else ())
    rev = {}
    for a, l in call.items():
        for b in l: rev.setdefault(b, set()).add(a)
    seen = {x for x in list(rev) + list(call) if x.startswith(M + "::grow(")}
    if not seen: raise AnalysisError("function that makes room in the buffer not found")
    work = list(seen)
    while work:
        for y in rev.get(work.pop(), ()):
            if y not in seen: seen.add(y); work.append(y)
    return seen

def overbuf(f):
    """fields that are assigned an iterator made from pointers"""
    for i, nd in enumerate(f.nodes):
        c = nd.get("c", ())
        if (nd["k"] == "CXXOperatorCallExpr" and nd.get("op") == "=" and len(c) == 3) or (nd["k"] == "BinaryOperator" and nd["op"] == "="):
            l = f.n(f.strip(c[-2]))
            if l["k"] == "MemberExpr" and any(re.search(r"char \*( ?const)?$", f.n(x).get("t", "")) for x in f.walk(c[-1])): yield l["n"]

def iterators(R, P, mv):
    n = 0
    for c in sorted(P.derived(M)):
        its = {fl["n"] for fl in P.recs[c]["fields"] if re.search(r"regex_iterator", fl["t"])}
        its &= {t for m in P.recs[c]["methods"] if m["id"] in P.fns for t in overbuf(P.fns[m["id"]])}
        if not its: continue
        for m in P.recs[c]["methods"]:
            f = P.fns.get(m["id"])
            if f is None or f.cfg is None or f.kind in ("ctor", "dtor", "copyctor", "copyassign"): continue
            n += 1
            iterflow(R, P, f, its, mv)
    if not n: raise AnalysisError("no engine with a regex iterator found")

def iterflow(R, P, f, its, mv, init=(False, False), depth=0, memo=None, report=True):
    """states: (iterator stale, room ensured, result of the last grow()); returns the (stale, room) states at the end"""
    memo = {} if memo is None else memo
    key = (f.id, init, report)
    if key in memo: return memo[key]
    memo[key] = {init}
    inst = {f.entry: {init + (None,)}}; work = [f.entry]; seen = set(); reads = set()
    def target(i):
        nd = f.n(f.strip(i))
        return nd["k"] == "MemberExpr" and nd.get("dk") == "field" and nd["n"] in its
    def growcall(i):
        nd = f.n(f.strip(i)); return nd["k"] in CALLS and (nd.get("fn") or "").startswith(M + "::grow(")
    held = {}
    for nd in f.nodes:
        if nd["k"] == "DeclStmt":
            for d in nd["decls"]:
                if d["i"] >= 0: held[d["d"]] = d["i"]
    for nd in f.nodes:
        if nd["k"] in ("BinaryOperator", "CompoundAssignOperator", "UnaryOperator") and nd["op"] in ("=", "+=", "-=", "|=", "&=", "++", "--", "&"): held.pop(f.n(f.strip(nd["c"][0])).get("d"), None)
    while work:
        b = work.pop(); st = set(inst[b]); B = f.cfg[b]
        for e in B["e"]:
            if isinstance(e, dict): continue
            nd = f.n(e)
            if nd["k"] in CALLS and (nd.get("fn") or "").startswith(M + "::grow("): st = {(True, True, True) for s, en, r in st} | {(s, True, False) for s, en, r in st}
            elif (nd["k"] == "CXXOperatorCallExpr" and nd.get("op") == "=" and target(nd["c"][1])) or (nd["k"] == "BinaryOperator" and nd["op"] == "=" and target(nd["c"][0])): st = {(False, en, r) for s, en, r in st}
            elif nd["k"] in CALLS and nd.get("fn") in P.fns and P.fns[nd["fn"]].cls == f.cls and P.fns[nd["fn"]].cfg is not None and depth < 4 and P.fns[nd["fn"]].name != f.name:
                out = set()
                for s, en, r in st: out |= {(x, y, None) for x, y in iterflow(R, P, P.fns[nd["fn"]], its, mv, (s, en), depth + 1, memo, False)}
                st = out
            elif nd["k"] in CALLS and nd.get("fn") in mv: st = {(s or not en, False, None) for s, en, r in st}
            elif nd["k"] == "MemberExpr" and nd.get("dk") == "field" and nd["n"] in its:
                par = f.par.get(e); p = f.n(par) if par is not None else {}
                lhs = p.get("k") == "CXXOperatorCallExpr" and p.get("op") == "=" and f.strip(p["c"][1]) == e or p.get("k") == "BinaryOperator" and p.get("op") == "=" and p["c"][0] == e
                if not lhs: reads.add((e, any(s for s, en, r in st)))
        if B.get("noret"): continue
        for j, s in enumerate(B["s"]):
            if s is None: continue
            ns = set(st)
            if "cond" in B and len(B["s"]) == 2:
                i = f.strip(B.get("lc", B["cond"])); t = j == 0; nd = f.n(i)
                while nd["k"] == "UnaryOperator" and nd["op"] == "!": t = not t; i = f.strip(nd["c"][0]); nd = f.n(i)
                while nd["k"] == "DeclRefExpr" and nd["d"] in held or nd["k"] == "UnaryOperator" and nd["op"] == "!":
                    if nd["k"] == "UnaryOperator": t = not t; i = f.strip(nd["c"][0])
                    else: i = f.strip(held[nd["d"]])
                    nd = f.n(i)
                if growcall(i): ns = {x for x in ns if x[2] in (None, t)}
                elif nd["k"] == "BinaryOperator" and nd["op"] in ("<", ">", "<=", ">="):
                    mem = {f.n(x)["n"] for x in f.walk(i) if f.k(x) == "MemberExpr"}
                    if {"end_", "max_"} <= mem:
                        left = {f.n(x)["n"] for x in f.walk(nd["c"][0]) if f.k(x) == "MemberExpr"}
                        less = (nd["op"] in ("<", "<=")) == ("end_" in left and "max_" not in left)
                        if "max_" in left and "end_" in left: less = nd["op"] in (">", ">=")
                        if t == less: ns = {(x, True, r) for x, en, r in ns}
            old = inst.setdefault(s, set())
            if not ns <= old: inst[s] = old | ns; work.append(s)
    if report:
        for e in sorted({e for e, s in reads}):
            if (e, True) in reads: R.bad("ITER", "ITER: %s: %s" % (f.name, f.n(e)["n"]), f.at(e), "%s::%s uses the regex iterator %s after the buffer may have moved" % (f.cls, f.name, f.n(e)["n"]))
            else: R.ok("ITER", "%s::%s line %d" % (f.cls, f.name, f.n(e)["l"]))
    memo[key] = {(s, en) for s, en, r in inst.get(f.exit, ())}
    return memo[key]

def check(R):
    R.rule("REBASE", "making room moves the data and every saved position by the same distance", 10)
    R.rule("STALE", "functions whose uses of buffer positions are all current", 30)
    R.rule("MEMBER", "members that hold a buffer position are among those adjusted", 20)
    R.rule("ITER", "uses of regex iterators over the buffer", 20)
    P = load(["headers", "flex", "lib"]); R.units = P.tus
    rebase(R, P)
    mv = movers(P); tot = 0
    fs = [f for f in sorted(P.fns.values(), key=lambda f: (f.file, f.line, f.id)) if f.cfg is not None and f.cls and (f.cls == M or M in P.bases(f.cls)) and f.kind not in ("dtor",) and not (f.cls == M and f.name == "grow")]
    F = Flow(P, R, mv)
    for f in fs:
        F.nuse = 0; F.nmem = set(); got = []
        def sink(g, i, what, rule="STALE"): got.append((rule, g, i, what))
        F.sink = sink; F.run(f); F.sink = None
        for rule, g, i, what in dict.fromkeys(got):
            R.bad(rule, "%s: %s: %s" % (rule, g.name, what), g.at(i), "%s::%s: %s%s" % (g.cls, g.name, what, " after the buffer may have moved since it was computed" if rule == "STALE" else ""))
        if F.nuse: R.ok("STALE", "%s::%s: %d uses" % (f.cls, f.name, F.nuse))
        for _ in F.nmem: R.ok("MEMBER", "%s::%s" % (f.cls, f.name))
        tot += F.nuse
    R.note("%d functions, %d uses of buffer positions, %d functions may move the buffer" % (len(fs), tot, len(mv)))
    iterators(R, P, mv)

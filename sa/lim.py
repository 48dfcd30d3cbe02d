"""Forward analysis of one function (small callees inlined): values of integers are linear forms over symbols, where a product of two
symbols is a symbol too; facts are linear forms known to be non-negative. States are joined where paths meet; a loop forgets what it
assigns. What a conversion, sum or increment to a narrower unsigned type stores has to be proved to fit, unless the program detects the
wrap-around itself (result compared with 0 or with an operand) and does not go on."""
from core import *
from aff import L, N, Cond, Norm, prove, NEG, loops

WID = {"unsigned char": 8, "unsigned short": 16, "unsigned int": 32, "unsigned long": 64, "unsigned long long": 64, "uint8_t": 8, "uint16_t": 16, "uint32_t": 32, "uint64_t": 64, "size_t": 64}
SWID = {"char": 8, "signed char": 8, "short": 16, "int": 32, "long": 64, "long long": 64}
def plain(t): return (t or "").replace("const ", "").replace("volatile ", "").replace("&", "").strip()
def width(t): t = plain(t); return WID.get(t) or SWID.get(t)
def umax(t): t = plain(t); return (1 << WID[t]) - 1 if t in WID else None

class S:
    def __init__(self): self.env = {}; self.facts = (); self.vals = {}; self.pend = {}; self.all = {}
    def copy(self):
        s = S(); s.env = dict(self.env); s.facts = self.facts; s.vals = dict(self.vals); s.pend = dict(self.pend); s.all = dict(self.all)
        n = getattr(self, "norm", None)
        if n is not None: s.norm = n
        return s
    def fact(self, l):
        if l.const() is not None: return l.c >= 0
        if l not in self.facts: self.facts += (l,)
        return True

def prod(a, b):
    """product of two linear forms; products of two symbols are symbols"""
    d = {}
    for x, v in list(a.a) + ([(None, a.c)] if a.c else []):
        for y, w in list(b.a) + ([(None, b.c)] if b.c else []):
            if x is None and y is None: d[None] = d.get(None, 0) + v * w; continue
            k = x if y is None else y if x is None else None
            if k is None:
                fs = sorted((x.split("*") if "*" in x else [x]) + (y.split("*") if "*" in y else [y])); k = "*".join(fs)
            d[k] = d.get(k, 0) + v * w
    c = d.pop(None, 0)
    return L(d, c)

class Lim:
    def __init__(self, P, judge, hooks=None):
        self.P = P; self.judge = judge; self.n = 0; self.ob = {}; self.depth = 0; self.stack = []; self.consts = {0, 255, 65535, (1 << 32) - 1}
        self.alts = {}; self.drop = set(); self.failed = set(); self.used = {}; self.bounds = []
    def analyse(self, fn, mk):
        """bounds by a constant at loop heads are assumed, and dropped until all of them are inductive"""
        for nd in fn.nodes:
            if nd["k"] == "BinaryOperator" and nd["op"] in NEG:
                for c in nd["c"]:
                    if isinstance(fn.n(c).get("cv"), int) and fn.n(c)["cv"] >= 255: self.bounds.append(fn.n(c)["cv"])
            g = self.P.fns.get(nd.get("fn")) if nd["k"] in ("CallExpr", "CXXMemberCallExpr") else None
            if g is not None and len(g.nodes) < 60:
                for x in g.nodes:
                    if x["k"] == "BinaryOperator" and x["op"] in NEG:
                        for c in x["c"]:
                            if isinstance(g.n(c).get("cv"), int) and g.n(c)["cv"] >= 255: self.bounds.append(g.n(c)["cv"])
        self.bounds = sorted(set(self.bounds))
        for _ in range(40):
            self.ob = {}; self.failed = set(); self.used = {}; self.n = 0; self.stack = [fn.id]; self.alias = {}
            self.run(fn, mk(self), "")
            if os.environ.get("LIMDBG"): print(fn.name, sorted(map(str, self.failed))[:8], {k: v for k, v in self.used.items()} if not self.failed else "")
            if not self.failed: return
            self.drop |= self.failed
        self.bounds = []; self.ob = {}; self.used = {}; self.failed = set(); self.run(fn, mk(self), "")
    # ---- reports: site -> [ok, rule, message]; a site is discharged when every visit proves it
    def report(self, rule, f, i, ok, what):
        k = (rule, f.id, i); o = self.ob.get(k)
        if o is None: self.ob[k] = [bool(ok), f, i, what]
        elif not ok: o[0] = False
    def fresh(self, st, name, t=None, hi=None, lo=0):
        self.n += 1; a = L({"%s.%d" % (re.sub(r"[*]", "", str(name)), self.n): 1})
        m = umax(t) if t else None
        if plain(t) == "bool": m = 1
        if m is not None:
            st.fact(a)
            if m < (1 << 64) - 1: st.fact(N(m) - a)
        elif lo is not None and t is None: st.fact(a)
        if hi is not None: st.fact(N(hi) - a)
        return a
    def prove(self, st, t):
        if prove(st, t): return True
        # products in the goal: multiply facts by a non-negative factor
        ps = [k for k, _ in t.a if "*" in k]
        if not ps: return False
        s = st.copy(); s.norm = getattr(st, "norm", None)
        if s.norm is None: del s.norm
        add = []; todo = set(ps); done = set()
        for _ in range(2):
            new = set()
            for f in st.facts:
                at = {k for k, _ in f.a}
                if len(f.a) > 3 or any("*" in k for k in at): continue
                for p in sorted(todo):
                    xs = p.split("*")
                    if len(xs) != 2: continue
                    for x, y in ((xs[0], xs[1]), (xs[1], xs[0])):
                        if x in at and prove(st, L({y: 1})):
                            g = prod(f, L({y: 1}))
                            if g not in add: add.append(g); new |= {k for k, _ in g.a if "*" in k}
            done |= todo; todo = new - done
            if not todo or len(add) > 60: break
        if not add: return False
        # products that those facts brought in
        for a in add[:80]: s.fact(a)
        for p in done | todo:
            if all(prove(st, L({x: 1})) for x in p.split("*")): s.fact(L({p: 1}))
        return prove(s, t)
    # ---- running a function
    def run(self, fn, st, fr):
        """-> (state at exit or None, value)"""
        lp = loops(fn); order = self.order(fn, lp); inn = {fn.entry: [(None, st)]}; outs = []
        adv = {}
        for b in order:
            ss = inn.pop(b, None)
            if not ss: continue
            for src, x in ss:
                for h in lp:
                    if src in lp[h] and b not in lp[h] and h in adv:
                        for F, K in adv[h].items(): x.all[F] = min(K, x.all.get(F, K))
            s = ss[0][1]
            for _, o in ss[1:]: s = self.join(s, o, "%s%d" % (fr, b))
            if b in lp: s = self.havoc(fn, fr, s, lp[b], b)
            if b == fn.exit: outs.append(s); continue
            self.cur = (fn, fr, lp, adv, b)
            r = self.block(fn, fr, b, s, lp, adv)
            for t, x in r:
                for k, (w, ops, i, fr2, f2) in list(x.pend.items()):
                    if fr2 == fr and t in lp and b in lp[t]:
                        self.report("WRAP", f2, i, False, "may wrap around"); del x.pend[k]
                if t in lp and b in lp[t]:
                    for p, K in self.used.get((fn.id, t, fr), {}).items():
                        v = x.env.get(p)
                        if not (isinstance(v, L) and self.prove(x, N(K) - v)): self.failed.add((fn.id, t, p, K))
                    continue
                inn.setdefault(t, []).append((b, x))
        if not outs: return None, None
        s = outs[0]
        for k, (w, ops, i, fr2, f2) in list(s.pend.items()):
            if fr2 == fr: self.report("WRAP", f2, i, False, "may wrap around"); del s.pend[k]
        return s, s.vals.get((fr, "ret"))
    def order(self, fn, lp):
        seen = set(); post = []
        def succs(b):
            ss = [s for s in fn.cfg[b]["s"] if s is not None]
            depth = lambda s: sum(1 for h in lp if s in lp[h])
            return sorted(ss, key=depth)
        st = [(fn.entry, iter(succs(fn.entry)))]; seen.add(fn.entry)
        while st:
            b, it = st[-1]
            for s in it:
                if s not in seen: seen.add(s); st.append((s, iter(succs(s)))); break
            else: post.append(b); st.pop()
        return post[::-1]
    def join(self, a, b, tag):
        r = S(); r.vals = {k: v for k, v in a.vals.items() if k in b.vals and (b.vals[k] is v or b.vals[k] == v)}
        bf = set(b.facts); fa = [f for f in a.facts if f in bf]; keep = set(fa)
        for x, o in ((a, b), (b, a)):
            known = {k for f in o.facts for k, _ in f.a} | {k for d in (o.env, o.vals) for v in d.values() if isinstance(v, L) for k, _ in v.a}
            for f in x.facts:
                if f in keep: continue
                # a fact about a symbol the other path does not know says nothing there
                if any(k not in known and "*" not in k for k, _ in f.a) or len(f.a) <= 3 and self.prove(o, f): keep.add(f); fa.append(f)
        r.facts = tuple(fa)
        for k in a.env:
            if k not in b.env: continue
            x, y = a.env[k], b.env[k]
            if x is y or x == y: r.env[k] = x; continue
            r.env[k] = self.phi(r, a, b, x, y, tag, k)
        for k in a.vals:
            if k not in r.vals and k in b.vals and isinstance(a.vals[k], L) and isinstance(b.vals[k], L): r.vals[k] = self.phi(r, a, b, a.vals[k], b.vals[k], tag, k)
        # the value of a conditional operator: whichever arm was evaluated
        for k in set(a.vals) ^ set(b.vals):
            v = a.vals.get(k, b.vals.get(k))
            r.vals.setdefault(("may", k), (v, k in a.vals))
        r.pend = dict(a.pend); r.pend.update(b.pend)
        r.all = {k: max(v, b.all[k]) for k, v in a.all.items() if k in b.all}
        return r
    def phi(self, r, a, b, x, y, tag, k):
        if not isinstance(x, L) or not isinstance(y, L): return None
        self.n += 1; p = L({"j%s.%d" % (tag.replace("*", ""), self.n): 1})
        if prove(a, x) and prove(b, y): r.fact(p)
        for c in sorted(self.consts):
            if prove(a, N(c) - x) and prove(b, N(c) - y): r.fact(N(c) - p); break
        # an upper bound one side has by a symbol
        for u in (x, y):
            if u.a and prove(a, u - x) and prove(b, u - y): r.fact(u - p)
        return p
    def assigned(self, fn, fr, body):
        out = set()
        for b in body:
            for e in fn.cfg[b]["e"]:
                if isinstance(e, dict): continue
                nd = fn.n(e); k = nd["k"]
                if k in ("BinaryOperator", "CompoundAssignOperator") and nd["op"].endswith("=") and nd["op"] not in NEG or k == "UnaryOperator" and nd["op"] in ("++", "--"):
                    p = fn.path(nd["c"][0])
                    if p: out.add(p)
                elif k == "DeclStmt":
                    for d in nd["decls"]: out.add((d["d"],))
                elif k in ("CallExpr", "CXXMemberCallExpr", "CXXOperatorCallExpr"):
                    for p in self.clobbers(fn, e): out.add(p)
        return out
    def clobbers(self, fn, i):
        nd = fn.n(i); out = []; c = nd.get("c", ())
        pt = nd.get("pt", []); args = c[1:]
        if nd["k"] == "CXXOperatorCallExpr" and nd.get("cls"):
            p = fn.path(args[0]) if args else None
            if p and not nd.get("cst"): out.append(p + ("#",))
            args = args[1:]
        elif nd.get("mem"):
            me = fn.n(fn.strip(c[0]))
            if me["k"] == "MemberExpr" and me.get("c") and not nd.get("cst"):
                p = fn.path(me["c"][0])
                if p: out.append(p + ("#",))
        for n, a in enumerate(args):
            t = pt[n] if n < len(pt) else ""
            if t.endswith("&") and not t.startswith("const "):
                p = fn.path(a)
                if p: out.append(p)
            elif t.endswith("*") and not t.startswith("const "):
                p = fn.path(a)
                if p: out.append(p[:-1] if p[-1] == "&" else p + ("#",))
        return out
    def kill(self, st, fr, p):
        q = self.key(fr, p)
        if q and q[-1] == "#":
            q = q[:-1]
            for k in [k for k in st.env if k[:len(q)] == q and len(k) > len(q)]: del st.env[k]
        else:
            for k in [k for k in st.env if k[:len(q)] == q]: del st.env[k]
    def key(self, fr, p):
        if p is None: return None
        if p[0] == "this" or p[0].startswith("::"): return p
        al = self.alias.get((fr, p[0])) if hasattr(self, "alias") else None
        if al is not None: return al + p[1:]
        return (fr + p[0],) + p[1:]
    def havoc(self, fn, fr, s, body, b):
        s0 = s; s = s.copy()
        for p in sorted(self.assigned(fn, fr, body)):
            q = self.key(fr, p); o = s0.env.get(q)
            self.kill(s, fr, p)
            if isinstance(o, L) and len(q) <= 2:
                for K in self.bounds:
                    if (fn.id, b, q, K) in self.drop or not prove(s0, N(K) - o): continue
                    self.n += 1; v = L({"%s.%d" % (q[-1].replace("*", ""), self.n): 1}); s.env[q] = v; s.fact(N(K) - v)
                    if self.type_of(fn, p) in WID: s.fact(v)
                    self.used.setdefault((fn.id, b, fr), {})[q] = K; break
        nodes = set()
        for x in body:
            for e in fn.cfg[x]["e"]:
                if isinstance(e, dict): continue
                nodes.add(e); nd = fn.n(e)
                if s.all and nd["k"] in ("BinaryOperator", "CompoundAssignOperator", "UnaryOperator") and (nd["op"] in ("++", "--") or nd["op"].endswith("=") and nd["op"] not in NEG):
                    m = fn.n(fn.strip(nd["c"][0]))
                    if m["k"] == "MemberExpr": s.all.pop(m.get("d"), None)
        s.vals = {k: v for k, v in s.vals.items() if not (k[0] == fr and k[1] in nodes)}
        return s
    def type_of(self, fn, p):
        for nd in fn.nodes:
            if nd["k"] in ("DeclRefExpr", "MemberExpr") and (nd.get("d") == p[-1] or nd.get("n") == p[-1]): return plain(nd.get("t"))
        return None
    # ---- blocks
    def block(self, fn, fr, b, st, lp, adv):
        B = fn.cfg[b]
        for e in B["e"]:
            if isinstance(e, dict): continue
            if not self.elem(fn, fr, st, e, lp, adv, b): return []
        if B.get("noret"): return []
        succ = B["s"]
        if B.get("tk") == "SwitchStmt" or len([x for x in succ if x is not None]) < 2 or "cond" not in B or len(succ) != 2:
            ss = [x for x in succ if x is not None]
            return [(x, st if n == len(ss) - 1 else st.copy()) for n, x in enumerate(ss)]
        out = []; c = B.get("lc", B["cond"])
        for t, s in self.split(fn, fr, st, c):
            x = succ[0] if t else succ[1]
            if x is not None: out.append((x, s))
        return out
    def split(self, fn, fr, st, c):
        i = fn.strip(c); nd = fn.n(i)
        if nd["k"] == "UnaryOperator" and nd["op"] == "!": return [(not t, s) for t, s in self.split(fn, fr, st, nd["c"][0])]
        v = self.val(fn, fr, st, c)
        if isinstance(v, L): v = Cond("!=", v, N(0))
        if isinstance(v, tuple) and v and v[0] == "ctype":
            s = st.copy(); s.fact(v[1] - v[2]); s.fact(N(v[3]) - v[1]); return [(True, s), (False, st.copy())]
        if isinstance(v, tuple) and v and v[0] == "cases": return self.cases(st, v)
        if not isinstance(v, Cond) or not isinstance(v.a, L) or not isinstance(v.b, L): return [(True, st.copy()), (False, st.copy())]
        return self.decide(st, v)
    def cases(self, st, v):
        return [(t, s.copy()) for t, s in ((True, v[1]), (False, v[2])) if s is not None]
    def decide(self, st, v):
        out = []
        for t in (True, False):
            op = v.op if t else NEG[v.op]; d = v.b - v.a; s = st.copy()
            if op in ("<", "<=", ">", ">="):
                f = d - 1 if op == "<" else d if op == "<=" else d.mul(-1) - 1 if op == ">" else d.mul(-1)
                if self.prove(st, f.mul(-1) - 1) or not s.fact(f): continue
            elif op == "==":
                if prove(st, d - 1) or prove(st, d.mul(-1) - 1) or not (s.fact(d) and s.fact(d.mul(-1))): continue
            else:
                if d.const() == 0 or prove(st, d) and prove(st, d.mul(-1)): continue
                if prove(st, d): s.fact(d - 1)
                elif prove(st, d.mul(-1)): s.fact(d.mul(-1) - 1)
            if op == "!=":
                for x, y in ((v.a, v.b), (v.b, v.a)):
                    if x in self.alts and y.const() == self.alts[x][0]: e = self.alts[x][1] - x; s.fact(e); s.fact(e.mul(-1))
            # wrap-around detected?
            for k, (w, ops, i, fr2, f2) in list(s.pend.items()):
                a, b2, o = v.a, v.b, op
                if b2 == w: a, b2 = b2, a; o = {"<": ">", ">": "<", "<=": ">=", ">=": "<="}.get(o, o)
                if a == w and (o == "!=" and b2 == N(0) and ops is None or o == ">" and b2 == N(0) and ops is None or o == ">=" and b2 == N(1) and ops is None or o in (">=", ">") and ops is not None and b2 in ops):
                    del s.pend[k]
                    f2_, i2 = f2, i; self.report("WRAP", f2_, i2, True, "may wrap around")
            out.append((t, s))
        return out
    # ---- values
    def val(self, fn, fr, st, i):
        if i is None or i < 0: return None
        nd = fn.n(i)
        if isinstance(nd.get("cv"), int): return N(nd["cv"])
        k = (fr, i)
        if k in st.vals: return st.vals[k]
        if nd["k"] == "ParenExpr" or nd["k"] in STRIP and nd["k"] not in CASTS and nd.get("c"): return self.val(fn, fr, st, nd["c"][0])
        v = self.eval(fn, fr, st, i); st.vals[k] = v
        return v
    def load(self, fn, fr, st, i, t):
        p = self.key(fr, fn.path(i))
        if p is None or "&" in p:
            v = self.fresh(st, "v", t) if width(t) or plain(t) == "bool" else None
            j = fn.strip(i)
            if isinstance(v, L) and fn.k(j) == "MemberExpr" and fn.n(j).get("d") in st.all: st.fact(N(st.all[fn.n(j)["d"]]) - v)
            return v
        if p not in st.env:
            if not (width(t) or plain(t) == "bool"): return None
            st.env[p] = self.fresh(st, p[-1], t)
        v = st.env[p]
        j = fn.strip(i)
        if isinstance(v, L) and fn.k(j) == "MemberExpr" and fn.n(j).get("d") in st.all: st.fact(N(st.all[fn.n(j)["d"]]) - v)
        return v
    def narrow(self, fn, fr, st, i, v, t, src, sink=None):
        """v is stored in type t"""
        m = umax(t)
        if not isinstance(v, L): return self.fresh(st, "c", t) if m is not None else v
        if m is None or m >= (1 << 64) - 1: return v
        up = self.prove(st, N(m) - v)
        if up and self.prove(st, v): self.judged(fn, i, True, src, t, sink); return v
        if not up and self.prove(st, v):
            # a sum of two values that fit: the program may detect the wrap-around itself
            j = src
            while fn.k(j) in STRIP and fn.c(j): j = fn.c(j)[0]
            nd = fn.n(j)
            if nd["k"] == "BinaryOperator" and nd["op"] == "+" or nd["k"] == "CompoundAssignOperator" and nd["op"] == "+=":
                a, b = (self.val(fn, fr, st, x) for x in nd["c"]) if nd["k"] == "BinaryOperator" else st.vals.get((fr, j, "ops"), (None, None))
                if isinstance(a, L) and isinstance(b, L) and self.prove(st, N(m) - a) and self.prove(st, N(m) - b):
                    w = self.fresh(st, "w", t)
                    if self.judge(fn, i, src, t, sink): st.pend[(fr, i)] = (w, [a, b], i, fr, fn)
                    return w
        if not up: self.judged(fn, i, False, src, t, sink)
        return self.fresh(st, "c", t)
    def judged(self, fn, i, ok, src, t, sink=None):
        if self.judge(fn, i, src, t, sink): self.report("FIT", fn, i, ok, "%s may exceed %s" % (fn.text(src), plain(t)))
    def eval(self, fn, fr, st, i):
        nd = fn.n(i); k = nd["k"]; c = nd.get("c", ())
        if k in CASTS:
            ck = nd.get("ck")
            if ck == "LValueToRValue":
                j = fn.strip(c[0]); x = fn.n(j)
                if (fr, j) in st.vals and x["k"] in ("UnaryOperator", "BinaryOperator", "CompoundAssignOperator") and x.get("op") != "*": return st.vals[(fr, j)]
                if x["k"] in ("BinaryOperator", "CompoundAssignOperator"): return self.load(fn, fr, st, x["c"][0], nd.get("t"))
                if x["k"] == "UnaryOperator" and x["op"] in ("++", "--"): return self.load(fn, fr, st, x["c"][0], nd.get("t"))
                if x["k"] == "ConditionalOperator": return self.condop(fn, fr, st, j)
                return self.load(fn, fr, st, c[0], nd.get("t"))
            v = self.val(fn, fr, st, c[0])
            if ck == "IntegralCast":
                a, b = width(fn.n(c[0]).get("t")), width(nd.get("t"))
                if plain(fn.n(c[0]).get("t")) == "bool" and plain(nd.get("t")) != "bool" and not isinstance(v, L): return self.fresh(st, "b", hi=1)
                if isinstance(v, (Cond, tuple)): return v
                if umax(nd.get("t")) is not None and a and b and b < a: return self.narrow(fn, fr, st, i, v, nd["t"], c[0])
                if isinstance(v, L) and umax(nd.get("t")) is not None and not self.prove(st, v): return self.fresh(st, "u", nd.get("t"))
                return v
            if ck == "IntegralToBoolean": return v if isinstance(v, (Cond, tuple)) else Cond("!=", v, N(0)) if isinstance(v, L) else None
            return v
        if k in STRIP and c: return self.val(fn, fr, st, c[0])
        if k == "UnaryOperator":
            op = nd["op"]
            if op == "!":
                v = self.val(fn, fr, st, c[0])
                if isinstance(v, Cond): return Cond(NEG[v.op], v.a, v.b)
                if isinstance(v, tuple) and v and v[0] == "cases": return ("cases", v[2], v[1])
                if isinstance(v, L): return Cond("==", v, N(0))
                return None
            if op == "-":
                v = self.val(fn, fr, st, c[0]); return v.mul(-1) if isinstance(v, L) else None
            if op == "+": return self.val(fn, fr, st, c[0])
            if op == "*": return None
            return self.fresh(st, "u", nd.get("t")) if width(nd.get("t")) else None
        if k == "BinaryOperator":
            op = nd["op"]
            if op == ",": return self.val(fn, fr, st, c[1])
            if op in ("&&", "||"): return None
            a, b = self.val(fn, fr, st, c[0]), self.val(fn, fr, st, c[1])
            if op in NEG: return Cond(op, a, b) if isinstance(a, L) and isinstance(b, L) else None
            return self.arith(fn, fr, st, i, op, a, b, nd.get("t"))
        if k == "ConditionalOperator": return self.condop(fn, fr, st, i)
        if width(nd.get("t")): return self.fresh(st, k, nd.get("t"), lo=None if plain(nd.get("t")) in SWID else 0)
        return None
    def arith(self, fn, fr, st, i, op, a, b, t):
        if isinstance(a, L) and isinstance(b, L):
            if op == "+": return a + b
            if op == "-": return a - b
            if op == "*":
                r = prod(a, b)
                if a.const() is None and b.const() is None:
                    for x in r.a:
                        if "*" in x[0] and all(prove(st, L({y: 1})) for y in x[0].split("*")): st.fact(L({x[0]: 1}))
                    lim = {"int": (1 << 31) - 1, "unsigned int": (1 << 32) - 1}.get(plain(t))
                    if lim is not None and self.judge(fn, i, i, t, "*"): self.report("PRODUCT", fn, i, self.prove(st, N(lim) - r), "%s may exceed %s" % (fn.text(i), plain(t)))
                return r
            if op == "&" and (b.const() is not None or a.const() is not None):
                m = b.c if b.const() is not None else a.c; x = a if b.const() is not None else b
                if m >= 0:
                    if (m & (m + 1)) == 0 and self.prove(st, N(m) - x) and self.prove(st, x): return x
                    return self.fresh(st, "m", hi=m)
            if op == "&" and self.prove(st, a) and self.prove(st, b):
                r = self.fresh(st, "m"); st.fact(a - r); st.fact(b - r); return r
            if op == "&" and (self.prove(st, a) or self.prove(st, b)):
                r = self.fresh(st, "m"); st.fact((a if self.prove(st, a) else b) - r); return r
            if op == "|" and (a.const() is not None or b.const() is not None):
                m = b.c if b.const() is not None else a.c; x = a if b.const() is not None else b
                if m >= 0 and self.prove(st, x): r = self.fresh(st, "o"); st.fact(r - x); st.fact(x + m - r); return r
            if op == "<<" and b.const() is not None and 0 <= b.c < 64: return a.mul(1 << b.c)
            if op == ">>" and self.prove(st, a):
                r = self.fresh(st, "s"); st.fact(a - r)
                if b.const() is not None and 0 <= b.c < 64:
                    for w in (8, 16, 32, 64):
                        if w == 64 or self.prove(st, N((1 << w) - 1) - a): st.fact(N(((1 << w) - 1) >> b.c) - r); break
                return r
            if op == "/" and self.prove(st, a):
                r = self.fresh(st, "s"); st.fact(a - r)
                if b.const() is None and self.prove(st, b): st.fact(b - 1)  # not divided by zero
                if self.prove(st, b - 1): st.fact(a - prod(r, b))
                return r
            if op == "%" and b.const() is not None and b.c > 0 and self.prove(st, a): return self.fresh(st, "r", hi=b.c - 1)
        u = plain(t)
        return self.fresh(st, "b", t) if u in WID else self.fresh(st, "b", t, lo=None) if width(t) else None
    def condop(self, fn, fr, st, i):
        """the arms were evaluated in blocks of their own; their values meet here"""
        c = fn.n(i)["c"]; vs = []
        for j in c[1:3]:
            v = None
            x = fn.strip(j)
            if isinstance(fn.n(j).get("cv"), int): v = N(fn.n(j)["cv"])
            elif fn.n(j).get("lv"):
                v = self.constant(fn.n(x).get("d")) if fn.n(x).get("dk") == "global" else None
                if v is None: v = self.load(fn, fr, st, j, plain(fn.n(j).get("t")))
            else:
                for x in self.under(fn, j):
                    if (fr, x) in st.vals: v = st.vals[(fr, x)]; break
                    if ("may", (fr, x)) in st.vals: v = st.vals[("may", (fr, x))][0]; break
                if v is None: v = self.val(fn, fr, st, j) if width(fn.n(j).get("t")) else None
            vs.append(v)
        t = fn.n(i).get("t")
        if not width(t): return None
        r = self.fresh(st, "q", t, lo=None if plain(t) in SWID else 0)
        if all(isinstance(v, L) for v in vs):
            for m in sorted(self.consts):
                if all(prove(st, N(m) - v) for v in vs): st.fact(N(m) - r); break
            if all(prove(st, v) for v in vs): st.fact(r)
            for u in vs:
                if all(prove(st, u - v) for v in vs): st.fact(u - r)
            for x, y in (vs, vs[::-1]):
                if x.const() is not None and y.const() is None: self.alts[r] = (x.c, y)
        return r
    def constant(self, d):
        if not hasattr(self.P, "_consts"):
            self.P._consts = {}
            for f in self.P.fns.values():
                for nd in f.nodes:
                    if isinstance(nd.get("cv"), int) and nd.get("ck") == "LValueToRValue":
                        g = f.n(f.strip(nd["c"][0]))
                        if g.get("dk") == "global": self.P._consts[g["d"]] = nd["cv"]
        v = self.P._consts.get(d)
        return N(v) if v is not None else None
    def under(self, fn, j):
        out = []
        while True:
            out.append(j); nd = fn.n(j)
            if nd["k"] in STRIP and nd.get("c") and not (nd["k"] in CASTS and nd.get("ck") == "IntegralCast" and width(nd.get("t")) and width(fn.n(nd["c"][0]).get("t")) and width(nd["t"]) < width(fn.n(nd["c"][0])["t"])): j = nd["c"][0]
            else: return out
    # ---- effects
    def store(self, fn, fr, st, lhs, v, i):
        p = fn.path(lhs)
        if p is None: return
        q = self.key(fr, p); old = st.env.get(q)
        if isinstance(v, L) and v.const() is not None and v.c > 1 and isinstance(old, L) and old.const() is None and self.judge(fn, i, i, fn.n(fn.strip(lhs)).get("t"), "clamp"):
            self.report("CLAMP", fn, i, not prove(st, old - v.c - 1), "%s is cut down to the limit" % fn.text(lhs))
        j = fn.strip(lhs)
        if fn.k(j) == "MemberExpr" and "*" in q:
            d = fn.n(j)["d"]
            if d in st.all and not (isinstance(v, L) and self.prove(st, N(st.all[d]) - v)): del st.all[d]
            for k in [k for k in st.env if len(k) > 1 and k[-1] == q[-1] and k != q]: del st.env[k]
        for k in [k for k in st.env if k[:len(q)] == q]: del st.env[k]
        st.env[q] = v
    def elem(self, fn, fr, st, i, lp, adv, b):
        nd = fn.n(i); k = nd["k"]; c = nd.get("c", ())
        if isinstance(nd.get("cv"), int): st.vals[(fr, i)] = N(nd["cv"]); return True
        if k == "DeclStmt":
            for d in nd["decls"]:
                if d.get("static") or d["t"].endswith("&"): continue
                p = (fr + d["d"],)
                for x in [x for x in st.env if x[:1] == p]: del st.env[x]
                if width(d["t"]) or plain(d["t"]) == "bool":
                    v = self.val(fn, fr, st, d["i"]) if d["i"] >= 0 else None
                    st.env[p] = v if isinstance(v, (L, Cond)) or isinstance(v, tuple) else self.fresh(st, d.get("n", "l"), d["t"])
            return True
        if k == "BinaryOperator" and nd["op"] == "=":
            v = self.val(fn, fr, st, c[1])
            self.advance(fn, fr, st, i, lp, adv, b)
            if width(nd.get("t")) and not isinstance(v, L): v = self.fresh(st, "v", nd.get("t")) if not isinstance(v, (Cond, tuple)) else v
            self.store(fn, fr, st, c[0], v, i); st.vals[(fr, i)] = v
            return True
        if k == "CompoundAssignOperator":
            t = fn.n(fn.strip(c[0])).get("t"); old = self.load(fn, fr, st, c[0], t); x = self.val(fn, fr, st, c[1])
            if width(t):
                v = self.arith(fn, fr, st, i, nd["op"][:-1], old, x, "unsigned long"); st.vals[(fr, i, "ops")] = (old, x)
                if umax(t) is not None and width(t) <= 16: v = self.narrow(fn, fr, st, i, v, t, i)
            else: v = None
            self.store(fn, fr, st, c[0], v, i); st.vals[(fr, i)] = v
            return True
        if k == "UnaryOperator" and nd["op"] in ("++", "--"):
            t = fn.n(fn.strip(c[0])).get("t"); old = self.load(fn, fr, st, c[0], t) if width(t) else None
            v = old + (1 if nd["op"] == "++" else -1) if isinstance(old, L) else None
            m = umax(t) if width(t) else None
            if isinstance(v, L) and m is not None and m <= 65535:
                if nd["op"] == "++" and not self.prove(st, N(m) - v):
                    v = self.fresh(st, "w", t)
                    if self.judge(fn, i, i, t, "++"): st.pend[(fr, i)] = (v, None, i, fr, fn)
                elif nd["op"] == "++":
                    if self.judge(fn, i, i, t, "++"): self.report("WRAP", fn, i, True, "may wrap around")
                elif not self.prove(st, v): v = self.fresh(st, "w", t)
            self.store(fn, fr, st, c[0], v, i); st.vals[(fr, i)] = old if nd.get("post") else v
            return True
        if k == "ReturnStmt":
            if nd["e"] >= 0: st.vals[(fr, "ret")] = self.val(fn, fr, st, nd["e"])
            return True
        if k == "CXXThrowExpr": return False
        if k in ("CallExpr", "CXXMemberCallExpr", "CXXOperatorCallExpr"): return self.call(fn, fr, st, i)
        if k in ("MemberExpr", "DeclRefExpr", "CXXThisExpr", "StringLiteral"): return True
        if (fr, i) in st.vals: return True
        v = self.eval(fn, fr, st, i)
        if v is not None: st.vals[(fr, i)] = v
        return True
    def advance(self, fn, fr, st, i, lp, adv, b):
        """p = p->next in a loop: what holds for fields of every element passed"""
        c = fn.n(i)["c"]; l, r = fn.path(c[0]), fn.path(c[1])
        if not l or not r or len(r) != len(l) + 2 or r[:len(l)] != l or r[len(l)] != "*": return
        q = self.key(fr, l); hs = [h for h in lp if b in lp[h]]
        if not hs: return
        h = min(hs, key=lambda x: len(lp[x])); cur = {}
        ids = {}
        for nd in fn.nodes:
            if nd["k"] == "MemberExpr" and nd.get("dk") == "field": ids[nd["n"]] = nd["d"]
        for k, v in st.env.items():
            if k[:len(q)] == q and len(k) == len(q) + 2 and k[len(q)] == "*" and isinstance(v, L) and k[-1] in ids:
                for m in sorted(self.consts):
                    if m > 0 and prove(st, N(m) - v): cur[ids[k[-1]]] = m; break
        if h in adv: adv[h] = {F: max(K, cur[F]) for F, K in adv[h].items() if F in cur}
        else: adv[h] = cur
    def call(self, fn, fr, st, i):
        nd = fn.n(i); c = list(nd.get("c", ())); fid = nd.get("fn"); args = c[1:]; obj = None; t = nd.get("t")
        if nd["k"] == "CXXOperatorCallExpr" and nd.get("cls") and args: obj = self.key(fr, fn.path(args[0])); args = args[1:]
        elif nd.get("mem"):
            me = fn.n(fn.strip(c[0]))
            if me["k"] == "MemberExpr" and me.get("c"): obj = self.key(fr, fn.path(me["c"][0])); 
        if nd.get("noret"): return False
        av = [self.val(fn, fr, st, a) for a in args]; n = nd.get("n"); r = None
        if n in ("size", "length") and not args and width(t):
            if obj is not None:
                k = obj + ("#size",)
                if k not in st.env: st.env[k] = self.fresh(st, "size", t); self.sizeof(fn.n(fn.strip(fn.n(fn.strip(c[0]))["c"][0])), st.env[k], st)
                r = st.env[k]
            else:
                r = self.fresh(st, "size", t); me = fn.n(fn.strip(c[0]))
                if me.get("c"): self.sizeof(fn.n(fn.strip(me["c"][0])), r, st)
        elif n in ("isdigit", "isxdigit") and len(av) == 1 and isinstance(av[0], L):
            r = ("ctype", av[0], 48, 57 if n == "isdigit" else 102)
        elif n in ("min", "max") and len(args) == 2 and (fid or "").startswith("std::"):
            vs = []
            for a in args:
                vs.append(self.load(fn, fr, st, a, plain(fn.n(a).get("t"))) if fn.n(a).get("lv") else self.val(fn, fr, st, a))
            r = self.fresh(st, n, t)
            if n == "min":
                for v in vs:
                    if isinstance(v, L): st.fact(v - r)
            st.vals[(fr, i)] = r; return True
        else:
            g = self.P.fns.get(fid)
            if g is not None and g.cfg is not None and len(self.stack) < 3 and g.id not in self.stack and len(g.nodes) <= 260 and self.inl(g):
                self.pack(fn, fr, st, i, g, av)
                self.n += 1; fr2 = "c%d:" % self.n
                if not hasattr(self, "alias"): self.alias = {}
                ok = True
                for m, p in enumerate(g.params):
                    if m >= len(args): break
                    if p["t"].endswith("&"):
                        q = self.key(fr, fn.path(args[m]))
                        if q is not None: self.alias[(fr2, p["d"])] = q
                        elif isinstance(av[m], L): st.env[(fr2 + p["d"],)] = av[m]
                    elif isinstance(av[m], (L, Cond)): st.env[(fr2 + p["d"],)] = av[m]
                self.stack.append(g.id); cur = self.cur
                if plain(g.d.get("ret", t)) == "bool" or plain(t) == "bool":
                    s2, v = self.run(g, st.copy(), fr2)
                    self.stack.pop(); self.cur = cur
                    if s2 is None: return False
                    # which way a predicate goes depends on the conditions on its paths: both outcomes kept apart
                    cs = self.outcomes(g, st, args, av, fn, fr)
                    r = cs if cs is not None else v
                    for p in self.clobbers(fn, i): self.kill(st, fr, p)
                else:
                    s2, v = self.run(g, st.copy(), fr2)
                    self.stack.pop(); self.cur = cur
                    if s2 is None: return False
                    st.env = {k: x for k, x in s2.env.items() if not str(k[0]).startswith(fr2)}; st.facts = s2.facts; st.all = s2.all; st.pend = s2.pend
                    if hasattr(st, "norm"): del st.norm
                    r = v
            else:
                for p in self.clobbers(fn, i): self.kill(st, fr, p)
                if nd.get("mem") and not nd.get("cst") or g is not None and not nd.get("mem"):
                    for k in [k for k in st.env if k[0] == "this" and (obj == ("this",) or obj is None and not nd.get("mem")) and len(k) > 1]: del st.env[k]
        if r is None and (width(t) or plain(t) == "bool"): r = self.fresh(st, n or "r", t, lo=None if plain(t) in SWID else 0)
        st.vals[(fr, i)] = r
        return True
    def inl(self, g): return "pattern" in g.file and "::debug" not in g.id
    def sizeof(self, nd, v, st):
        m = re.search(r"(?:set|ORanges|Ranges|map)<(?:reflex::)?(unsigned short|unsigned char)\b", nd.get("t") or "")
        if m: st.fact(N(65536 if m.group(1) == "unsigned short" else 256) - v)
    def outcomes(self, g, st, args, av, fn, fr):
        """a predicate of one returned comparison of its parameters"""
        rets = [nd for nd in g.nodes if nd["k"] == "ReturnStmt"]
        if len(rets) != 1: return None
        e = g.strip(rets[0]["e"]); nd = g.n(e)
        if nd["k"] != "BinaryOperator" or nd["op"] not in NEG: return None
        vs = []
        for x in nd["c"]:
            if isinstance(g.n(x).get("cv"), int): vs.append(N(g.n(x)["cv"])); continue
            p = g.path(x); v = None
            for m, q in enumerate(g.params):
                if p == (q["d"],) and m < len(args): v = av[m] if isinstance(av[m], L) else self.load(fn, fr, st, args[m], plain(q["t"]))
            if p and p[0] == "this": v = st.env.get(p)
            vs.append(v)
        return Cond(nd["op"], vs[0], vs[1]) if all(isinstance(v, L) for v in vs) else None
    def pack(self, fn, fr, st, i, g, av):
        """return C | (parameter & M): the bits masked off are lost"""
        rets = [nd for nd in g.nodes if nd["k"] == "ReturnStmt"]
        if len(rets) != 1: return
        e = g.strip(rets[0]["e"]); nd = g.n(e)
        if nd["k"] != "BinaryOperator" or nd["op"] not in ("|", "+"): return
        for x, y in (nd["c"], nd["c"][::-1]):
            if not isinstance(g.n(x).get("cv"), int): continue
            y = g.strip(y); z = g.n(y)
            if z["k"] != "BinaryOperator" or z["op"] != "&": continue
            for p, m in (z["c"], z["c"][::-1]):
                if isinstance(g.n(m).get("cv"), int):
                    for q, pr in enumerate(g.params):
                        if g.path(p) == (pr["d"],) and q < len(av):
                            ok = isinstance(av[q], L) and self.prove(st, N(g.n(m)["cv"]) - av[q])
                            self.report("PACK", fn, i, ok, "%s packs a value that may exceed %#x" % (fn.text(i), g.n(m)["cv"]))

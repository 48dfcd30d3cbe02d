"""Provenance interpreter: an abstract interpretation over the CFG in which
every access path (this.f, param.f, local, ...) holds a set of atoms telling
where its value came from.

atoms:  ('in', path)   the value path had on entry of the analysed function
        ('c', n)       the constant n
        ('s', str)     a string literal
        ('new', where) a fresh allocation
        ('dep', path)  a value computed from the entry value of path
        ('fn', name)   the result of a call of that (unanalysed) function
        ('x',)         anything else

Calls of functions with known bodies are interpreted in place (context
sensitive), so extracting a helper does not change the result.
"""
from core import *

X = frozenset([("x",)])
U = frozenset()
STRONG = {"clear", "assign", "operator=", "swap", "resize", "reset", "str", "exchange"}
ZERO = frozenset([("c", 0)])

def norm(p):
    out = []
    for x in p:
        if x == "*" and out and out[-1] == "&": out.pop(); continue
        if x == "*" and out == ["this"]: continue
        if x == "*" and out and out[-1] == "*": continue
        if x == "&" and out and out[-1] == "*" and False: continue
        out.append(x)
    return tuple(out)

class Interp:
    def __init__(self, prog, dyn=None, maxdepth=14, noinline=(), onread=None, onwrite=None, oncall=None):
        self.P = prog; self.dyn = dyn; self.maxdepth = maxdepth; self.noinline = set(noinline)
        self.distinct = True; self.partial = []; self.onread = onread; self.onwrite = onwrite; self.oncall = oncall
        self.act = 0; self.stack = []; self.nfn = set(); self.ncalls = 0; self.recording = True
    # ---- state
    @staticmethod
    def default(p):
        if p[0].startswith("@"): return frozenset([("lu",)]) if len(p) == 1 else X
        return frozenset([("in", p)])
    def read(self, st, p):
        p = norm(p)
        v = st.get(p)
        if v is not None: return v
        # longest prefix
        for n in range(len(p) - 1, 0, -1):
            v = st.get(p[:n])
            if v is not None:
                suf = p[n:]; out = set()
                for a in v:
                    if a[0] == "in": out.add(("in", norm(a[1] + suf)))
                    elif a[0] == "c": out.add(a if suf != ("*",) else ("x",))
                    elif a[0] == "dep": out.add(a)
                    elif a[0] == "u": out.add(a)
                    elif a[0] == "new": out.add(("u",))
                    else: out.add(("x",))
                return frozenset(out)
        return self.default(p)
    def write(self, st, p, v, weak=False, site=None):
        p = norm(p)
        if self.onwrite and self.recording: self.onwrite(self, p, v, weak, site, st)
        if p and p[-1] == "*": weak = True
        if weak:
            old = st.get(p)
            if old is None: old = self.read(st, p)
            st[p] = old | v
        else:
            for q in [q for q in st if len(q) > len(p) and q[:len(p)] == p]: del st[q]
            st[p] = v
    @staticmethod
    def deps(v):
        out = set()
        for a in v:
            if a[0] == "in": out.add(("dep", a[1]))
            elif a[0] == "dep": out.add(a)
        out.add(("x",))
        return out
    def join(self, a, b):
        if a is None: return dict(b)
        r = dict(a)
        for p, v in b.items():
            if p in r: r[p] = r[p] | v
            else: r[p] = self.read(a, p) | v
        for p in a:
            if p not in b: r[p] = r[p] | self.read(b, p)
        return r
    # ---- running
    def run(self, fn, st=None, env=None, depth=0, args=None):
        """interpret fn; returns (exit state or None, return value)"""
        P = self.P
        if fn.cfg is None: raise AnalysisError("no CFG for " + fn.id)
        self.act += 1
        if not self.stack:
            env = dict(env or {})
            for p in fn.params:
                env.setdefault(p["d"], ("#" + p["n"],))
        A = Act(self, fn, env or {}, "@%d" % self.act, depth)
        self.nfn.add(fn.id)
        self.stack.append(fn.id)
        st = dict(st or {})
        if args:
            for k, v in args.items(): st[(A.pref + k,)] = v
        res = A.fix(st)
        self.stack.pop()
        return res, A.retval, A

class Act:
    def __init__(self, I, fn, env, pref, depth):
        self.I = I; self.fn = fn; self.env = env; self.pref = pref; self.depth = depth
        self.retval = U; self.vals = {}; self.retpaths = set(); self.retst = None
        self.pal = self.ptr_alias()
    def ptr_alias(self):
        """pointer locals and parameters that are never modified, with their initialiser"""
        fn = self.fn; mod = set()
        for i, nd in enumerate(fn.nodes):
            k = nd["k"]
            if k in ("BinaryOperator", "CompoundAssignOperator") and (nd["op"].endswith("=") and nd["op"] not in ("==", "!=", "<=", ">=")):
                t = fn.strip(nd["c"][0])
                if fn.k(t) == "DeclRefExpr": mod.add(fn.n(t)["d"])
            elif k == "UnaryOperator" and nd["op"] in ("++", "--", "&"):
                t = fn.strip(nd["c"][0])
                if fn.k(t) == "DeclRefExpr": mod.add(fn.n(t)["d"])
        al = {}
        for nd in fn.nodes:
            if nd["k"] == "DeclStmt":
                for d in nd["decls"]:
                    if d["t"].rstrip().endswith("*") and d["i"] >= 0 and d["d"] not in mod and not d.get("static"):
                        i = fn.strip(d["i"])
                        if fn.k(i) in ("MemberExpr", "DeclRefExpr", "UnaryOperator", "CXXThisExpr"): al[d["d"]] = d["i"]
        self.mod = mod
        return al
    def path(self, i, d=0):
        p = self.fn.path(i)
        if p is None: return None
        return self.subst(p, d)
    def subst(self, p, d=0):
        r = p[0]
        if r in self.env:
            return norm(self.env[r] + p[1:])
        if r == "this" or r.startswith("::"): return norm(p)
        if r in self.pal and d < 10:
            q = self.path(self.pal[r], d + 1)
            if q is not None: return norm(q + p[1:])
        return norm((self.pref + r,) + p[1:])
    def fix(self, st0):
        fn = self.fn; I = self.I
        inst = {fn.entry: st0}; work = [fn.entry]; cnt = {}
        order = rpo(fn)
        pos = {b: n for n, b in enumerate(order)}
        rec = I.recording; I.recording = False
        out = None; steps = 0
        import heapq
        heap = [(pos[fn.entry], fn.entry)]; inq = {fn.entry}
        while heap:
            _, b = heapq.heappop(heap); inq.discard(b)
            steps += 1
            if steps > 60000: raise AnalysisError("no fixpoint in " + fn.id)
            s = dict(inst[b])
            for succ, ns in self.block(b, s):
                if succ not in inst: inst[succ] = ns; ch = True
                else:
                    j = I.join(inst[succ], ns)
                    ch = j != inst[succ]
                    inst[succ] = j
                if ch and succ not in inq: heapq.heappush(heap, (pos[succ], succ)); inq.add(succ)
        self.inst = inst
        if rec:
            # one more pass with recording switched on
            I.recording = True
            for b in order:
                if b in inst: self.block(b, dict(inst[b]))
        I.recording = rec
        return inst.get(fn.exit)
    def block(self, b, st):
        """transfer; yields list of (successor, state)"""
        fn = self.fn; B = fn.cfg[b]
        self.st = st; self.dead = False
        for e in B["e"]:
            if isinstance(e, dict):
                if "dtor" in e: continue
                self.ctor_init(e)
            else:
                self.elem(e)
            if self.dead: return []
        if B.get("noret"): return []
        succ = B["s"]
        res = []
        if "cond" in B and len(succ) == 2 and B.get("tk") != "SwitchStmt":
            c = B.get("lc", B["cond"])
            t = self.truth(c)
            if t is not None:
                s = succ[0] if t else succ[1]
                return [(s, self.st)] if s is not None else []
            for n, s in enumerate(succ):
                if s is None: continue
                ns = dict(self.st)
                if self.refine(ns, c, n == 0) is False: continue
                res.append((s, ns))
            return res
        for s in succ:
            if s is not None: res.append((s, dict(self.st)))
        return res
    def truth(self, c):
        v = self.val(c)
        if v and all(a[0] == "c" for a in v):
            t = {bool(a[1]) for a in v}
            if len(t) == 1: return t.pop()
        if v and all(a[0] == "addr" or a[0] == "new" for a in v): return True
        return None
    def refine(self, st, c, truth):
        """narrow constant sets by a condition"""
        fn = self.fn; i = fn.strip(c); nd = fn.n(i)
        if nd["k"] == "UnaryOperator" and nd["op"] == "!": return self.refine(st, nd["c"][0], not truth)
        if nd["k"] == "BinaryOperator" and nd["op"] in ("==", "!="):
            eq = (nd["op"] == "==") == truth
            for a, b in ((0, 1), (1, 0)):
                kb = fn.cv(nd["c"][b])
                if kb is None and fn.k(fn.strip(nd["c"][b])) in ("GNUNullExpr", "CXXNullPtrLiteralExpr"): kb = 0
                if kb is None: continue
                p = self.path(nd["c"][a])
                if p is None: continue
                v = self.I.read(st, p)
                if eq: nv = frozenset(x for x in v if x[0] != "c" or x[1] == kb)
                else: nv = frozenset(x for x in v if not (x[0] == "c" and x[1] == kb))
                if not nv: return False
                if nv != v and p in st: st[p] = nv
                return True
            if eq and (fn.n(nd["c"][0]).get("t") or "").rstrip().endswith("*"):
                # two equal pointers: what either may be the other may be
                for a, b in ((0, 1), (1, 0)):
                    p = self.path(nd["c"][a])
                    if p is None or p[0] != "this" or p not in st and self.I.read(st, p) != frozenset([("in", p)]): continue
                    w = self.val(nd["c"][b])
                    if w and all(x[0] in ("in", "addr") and x[1][:1] != ("this",) for x in w): 
                        st[p] = w; q = ("this", "own_@PatternMatcher")
                        if p == ("this", "pat_") and self.I.read(st, q) == frozenset([("in", q)]): st[q] = frozenset([("c", 0)])  # the flag goes with the pointer, which does not change
                        break
            return True
        if nd["k"] == "CXXMemberCallExpr" and nd.get("n") == "empty" and truth:
            me = fn.n(fn.strip(nd["c"][0]))
            if me["k"] == "MemberExpr" and me.get("c"):
                p = self.path(me["c"][0])
                if p is not None:
                    if me.get("arrow") and fn.k(fn.strip(me["c"][0])) != "CXXThisExpr": p = norm(p + ("*",))
                    if len(p) > 1 or not p[0] == "this": st[norm(p)] = frozenset([("empty",)])
            return True
        p = self.path(i)
        if p is not None:
            v = self.I.read(st, p)
            nv = frozenset(x for x in v if x[0] != "c" or bool(x[1]) == truth)
            if not nv: return False
            if nv != v and p in st: st[p] = nv
        return True
    # ---- values
    def val(self, i):
        if i is None or i < 0: return X
        fn = self.fn; nd = fn.n(i)
        if "cv" in nd and isinstance(nd["cv"], int): return frozenset([("c", nd["cv"])])
        if i in self.vals: return self.vals[i]
        v = self.eval(i); return v
    def eval(self, i):
        """value of expression i (no side effects); children may have been executed already"""
        fn = self.fn; nd = fn.n(i); k = nd["k"]; c = nd.get("c", ())
        if "cv" in nd and isinstance(nd["cv"], int): return frozenset([("c", nd["cv"])])
        if k in STRIP and c:
            if k == "ImplicitCastExpr" and nd.get("ck") == "LValueToRValue":
                p = self.path(c[0])
                if p is not None:
                    v = self.I.read(self.st, p)
                    if self.I.onread and self.I.recording: self.I.onread(self.I, p, v, (fn, i), self.st)
                    return v
            if k == "ImplicitCastExpr" and nd.get("ck") == "ArrayToPointerDecay":
                p = self.path(c[0])
                if p is not None: return frozenset([("addr", p)])
            return self.val(c[0])
        if k in ("GNUNullExpr", "CXXNullPtrLiteralExpr", "ImplicitValueInitExpr", "CXXScalarValueInitExpr"): return ZERO
        if k == "StringLiteral": return frozenset([("s", nd.get("v"))])
        if k in ("MemberExpr", "DeclRefExpr", "ArraySubscriptExpr") or (k == "UnaryOperator" and nd["op"] == "*"):
            p = self.path(i)
            if p is not None: return self.I.read(self.st, p)
            return frozenset(x for j in c for x in Interp.deps(self.val(j))) | X
        if k == "UnaryOperator":
            v = self.val(c[0])
            if nd["op"] == "!":
                t = self.truth(c[0])
                if t is not None: return frozenset([("c", int(not t))])
            if nd["op"] == "&":
                p = self.path(c[0])
                return frozenset([("addr", p)]) if p is not None else X
            if nd["op"] == "-" and all(a[0] == "c" for a in v): return frozenset(("c", -a[1]) for a in v)
            return frozenset(Interp.deps(v))
        if k == "BinaryOperator":
            op = nd["op"]
            if op == ",": return self.val(c[1])
            if op in ("&&", "||"):
                a, b = self.truth(c[0]), self.truth(c[1])
                if op == "&&":
                    if a is False or b is False: return frozenset([("c", 0)])
                    if a and b: return frozenset([("c", 1)])
                else:
                    if a or b: return frozenset([("c", 1)])
                    if a is False and b is False: return frozenset([("c", 0)])
                return frozenset(Interp.deps(self.val(c[0])) | Interp.deps(self.val(c[1])))
            a, b = self.val(c[0]), self.val(c[1])
            if op in ("==", "!=") and a and b:
                if all(x[0] == "c" for x in a) and all(x[0] == "c" for x in b) and len(a) == 1 and len(b) == 1:
                    return frozenset([("c", int((a == b) == (op == "==")))])
                for u, w in ((a, b), (b, a)):
                    if w == ZERO and all(x[0] in ("addr", "new", "s") for x in u): return frozenset([("c", int(op == "!="))])
                # different objects: the operand of an assignment is taken not to be the target
                if len(a) == 1 and len(b) == 1 and all(x[0] == "addr" for x in a | b):
                    ra, rb = next(iter(a))[1], next(iter(b))[1]
                    if {ra[0][0], rb[0][0]} == {"t", "#"} and ra[0] in ("this",) or rb[0] in ("this",) and ra[0][0] == "#":
                        if self.I.distinct: return frozenset([("c", int(op == "!="))])
            if len(a) == 1 and len(b) == 1 and all(x[0] == "c" for x in a | b):
                x, y = next(iter(a))[1], next(iter(b))[1]
                try:
                    r = {"+": lambda: x + y, "-": lambda: x - y, "*": lambda: x * y, "<": lambda: int(x < y), ">": lambda: int(x > y), "<=": lambda: int(x <= y), ">=": lambda: int(x >= y), "&": lambda: x & y, "|": lambda: x | y}.get(op)
                    if r: return frozenset([("c", r())])
                except Exception: pass
            return frozenset(Interp.deps(a) | Interp.deps(b))
        if k == "ConditionalOperator":
            t = self.truth(c[0])
            if t is True: return self.val(c[1])
            if t is False: return self.val(c[2])
            return self.val(c[1]) | self.val(c[2])
        if k == "CXXThisExpr":
            return frozenset([("addr", self.env.get("this", ("this",)))])
        if k == "CXXNewExpr": return frozenset([("new", fn.at(i))])
        if k == "InitListExpr" and len(c) == 1: return self.val(c[0])
        if k in ("CXXConstructExpr", "CXXTemporaryObjectExpr") and nd.get("copy"): return self.val(c[0])
        if k == "CXXConstructExpr" and nd.get("zero"): return ZERO
        out = set()
        for j in c:
            if j >= 0: out |= Interp.deps(self.val(j))
        if "fn" in nd: out.add(("fn", nd["fn"].split("(")[0]))
        return frozenset(out) | X
    # ---- effects
    def assign(self, lhs, v, weak=False, site=None):
        p = self.path(lhs)
        if p is not None: self.I.write(self.st, p, v, weak, (self.fn, site if site is not None else lhs))
    def elem(self, i):
        fn = self.fn; nd = fn.n(i); k = nd["k"]; c = nd.get("c", ())
        if k == "DeclStmt":
            for d in nd["decls"]:
                if d.get("static"): continue
                if d["t"].endswith("&"): continue
                p = (self.pref + d["d"],)
                if d["i"] >= 0: self.construct(p, d["i"], d["t"])
                else: self.st[p] = frozenset([("lu",)])
            return
        if k == "BinaryOperator" and nd["op"] == "=":
            v = self.val(c[1]); self.assign(c[0], v, site=i); self.vals[i] = v; return
        if k == "CompoundAssignOperator":
            p = self.path(c[0])
            old = self.I.read(self.st, p) if p is not None else X
            if p is not None and self.I.onread and self.I.recording: self.I.onread(self.I, p, old, (fn, i), self.st)
            v = frozenset(Interp.deps(old) | Interp.deps(self.val(c[1])))
            self.assign(c[0], v, site=i); self.vals[i] = v; return
        if k == "UnaryOperator" and nd["op"] in ("++", "--"):
            p = self.path(c[0])
            old = self.I.read(self.st, p) if p is not None else X
            if p is not None and self.I.onread and self.I.recording: self.I.onread(self.I, p, old, (fn, i), self.st)
            v = frozenset(Interp.deps(old))
            self.assign(c[0], v, site=i); self.vals[i] = old if nd.get("post") else v; return
        if k == "ReturnStmt":
            if nd["e"] >= 0:
                self.retval = self.retval | self.val(nd["e"])
                p = self.path(nd["e"])
                if p is not None: self.retpaths.add(p)
            return
        if k in ("CallExpr", "CXXMemberCallExpr", "CXXOperatorCallExpr"): self.call(i); return
        if k in ("CXXConstructExpr", "CXXTemporaryObjectExpr"):
            return   # handled by its consumer (construct)
        if k == "CXXDeleteExpr": return
        if k == "CXXThrowExpr": self.dead = True; return
        if k == "CXXNewExpr": self.vals[i] = frozenset([("new", fn.at(i))]); return
        if k == "ImplicitCastExpr" and nd.get("ck") == "LValueToRValue":
            self.vals[i] = self.eval(i); return
        if k in CASTS or k in ("ParenExpr",):
            if c and fn.n(i).get("lv") is None: self.vals[i] = self.eval(i)
            return
        if k in ("BinaryOperator", "UnaryOperator", "ConditionalOperator"):
            if nd.get("lv") is None: self.vals[i] = self.eval(i)
            return
    def construct(self, p, e, t=None):
        """initialise object at p from expression e"""
        fn = self.fn; P = self.I.P
        i = e
        while fn.k(i) in ("ExprWithCleanups", "MaterializeTemporaryExpr", "CXXBindTemporaryExpr", "ConstantExpr", "CXXDefaultInitExpr", "CXXDefaultArgExpr") or (fn.k(i) in ("ImplicitCastExpr", "CXXFunctionalCastExpr") and fn.n(i).get("ck") in ("NoOp", "ConstructorConversion")):
            i = fn.c(i)[0]
        nd = fn.n(i); k = nd["k"]
        if k in ("CXXConstructExpr", "CXXTemporaryObjectExpr"):
            if nd.get("elid") and nd.get("copy"): return self.construct(p, nd["c"][0], t)
            cls = nd.get("cls")
            callee = P.fns.get(nd["fn"])
            if callee is not None and cls in P.recs and not nd.get("implctor"):
                if self.inlinable(callee):
                    self.invoke(callee, p, list(nd.get("c", ())), i, dyn=None)
                else: self.I.write(self.st, p, X, site=(fn, i))
                return
            if nd.get("zero"): self.I.write(self.st, p, ZERO, site=(fn, i)); return
            if nd.get("copy"):
                q = self.path(nd["c"][0])
                v = self.I.read(self.st, q) if q is not None else self.val(nd["c"][0])
                self.copyobj(p, q, v, (fn, i)); return
            if nd.get("implctor") and cls in P.recs:
                self.default_object(p, cls)
                return
            v = set(X)
            for j in nd.get("c", ()): 
                if fn.k(fn.strip(j)) in ("CXXDefaultArgExpr",): continue
                v |= Interp.deps(self.val(j))
            if nd.get("defctor") or not any(fn.k(j) != "CXXDefaultArgExpr" for j in nd.get("c", ())): v = {("empty",)}
            self.I.write(self.st, p, frozenset(v), site=(fn, i)); return
        if k == "InitListExpr" and t and t in P.recs:
            fl = P.recs[t]["fields"]
            for f, j in zip(fl, nd.get("c", ())): self.construct(p + (f["n"],), j, f["t"])
            return
        if k == "ArrayInitLoopExpr" or (k == "InitListExpr"):
            self.I.write(self.st, p, frozenset(x for j in nd.get("c", ()) for x in self.val(j)) or ZERO, site=(fn, i)); return
        v = self.val(e)
        self.I.write(self.st, p, v, site=(fn, i))
    def default_object(self, p, cls):
        P = self.I.P
        for f in P.recs[cls]["fields"]:
            if f.get("scalar") : self.I.write(self.st, p + (f["n"],), frozenset([("u",)]))
            elif f.get("rec") in P.recs and f.get("trivctor"): self.default_object(p + (f["n"],), f["rec"])
            elif not f.get("arr"): self.I.write(self.st, p + (f["n"],), frozenset([("empty",)]))
        for b in P.recs[cls]["bases"]:
            if b in P.recs: self.default_object(p, b)
    def copyobj(self, p, q, v, site):
        st = self.st
        if q is None: self.I.write(st, p, v, site=site); return
        subs = {r[len(q):]: st[r] for r in list(st) if len(r) > len(q) and r[:len(q)] == q}
        self.I.write(st, p, v, site=site)
        for s, sv in subs.items(): st[norm(p + s)] = sv
    def ctor_init(self, e):
        if "base" in e or "deleg" in e:
            self.construct(("this",) if "this" not in self.env else self.env["this"], e["init"], e.get("base")); return
        f = self.I.P.ren.get(e["field"], e["field"].split("::")[-1])
        p = norm(self.env.get("this", ("this",)) + (f,))
        ft = None
        if self.fn.cls in self.I.P.recs:
            for x in self.I.P.recs[self.fn.cls]["fields"]:
                if x["n"] == f: ft = x
        if ft is not None and ft["t"].endswith("&"): return
        self.construct(p, e["init"], ft["t"] if ft else None)
    def inlinable(self, callee):
        I = self.I
        return callee.cfg is not None and len(I.stack) < I.maxdepth and callee.id not in I.stack and callee.id not in I.noinline and callee.name not in I.noinline
    def call(self, i):
        fn = self.fn; nd = fn.n(i); P = self.I.P; c = list(nd.get("c", ())); k = nd["k"]
        self.I.ncalls += 1
        fid = nd.get("fn")
        obj = None; args = c[1:]
        if fid is None:
            for a in args: self.havoc(a)
            self.vals[i] = X; return
        if nd.get("mem"):
            me = fn.n(fn.strip(c[0]))
            if me["k"] == "MemberExpr":
                base = me["c"][0]; obj = self.path(base)
                if obj is not None and me.get("arrow") and fn.k(fn.strip(base)) != "CXXThisExpr": obj = norm(obj + ("*",))
        elif k == "CXXOperatorCallExpr" and nd.get("cls") and not nd.get("stat"):
            obj = self.path(args[0]) if args else None
            objnode = args[0] if args else None
            args = args[1:]
        name = nd.get("n", "")
        # dynamic dispatch
        target = fid
        if nd.get("virt") and obj is not None and self.I.dyn and obj == ("this",):
            target = P.final_overrider(self.I.dyn, fid)
        callee = P.fns.get(target)
        if self.I.oncall and self.I.recording: self.I.oncall(self.I, self, i, target, obj, args)
        if nd.get("noret"): self.dead = True; return
        if callee is not None and self.inlinable(callee) and (obj is not None or not nd.get("mem")):
            r, rp = self.invoke(callee, obj, args, i)
            self.vals[i] = r
            return
        # operator= of a record without a body: member-wise copy
        if name == "operator=" and obj is not None and args:
            q = self.path(args[0])
            v = self.I.read(self.st, q) if q is not None else self.val(args[0])
            self.copyobj(obj, q, v, (fn, i)); self.vals[i] = v; return
        base = fid.split("(")[0]
        if base in ("memcpy", "std::memcpy", "memmove", "std::memmove", "strcpy", "strncpy", "memset", "std::memset", "std::strcpy"):
            d = self.path(args[0])
            if d is None:
                av = self.val(args[0])
                for a in av:
                    if a[0] == "addr": d = a[1]
            if d is not None:
                if d and d[-1] == "&": d = d[:-1]
                if "set" in base: v = self.val(args[1])
                else:
                    q = self.path(args[1])
                    if q is None:
                        for a in self.val(args[1]):
                            if a[0] == "addr": q = a[1]
                    v = self.I.read(self.st, norm(q + ("*",))) if q is not None else X
                    if v == frozenset([("in", q)]) if q else False: v = frozenset([("in", q + ("*",))])
                part = self.partial_size(args)
                self.I.write(self.st, d + ("*",), v, weak=part, site=(fn, i))
                if part: self.I.partial.append((d, fn.at(i)))
                else: self.st[norm(d + ("*",))] = v
            self.vals[i] = X; return
        out = set(X)
        for a in args: out |= Interp.deps(self.val(a))
        if obj is not None and not nd.get("cst") and not nd.get("stat"):
            v = frozenset(out)
            if name in STRONG:
                if name == "clear": v = frozenset([("empty",)])
                elif name in ("operator=", "assign") and len(args) == 1: v = self.val(args[0])
                self.I.write(self.st, obj, v, site=(fn, i))
            elif name not in ("begin", "end", "find", "at", "operator[]", "front", "back", "top", "c_str", "data", "rbegin", "rend", "lower_bound", "upper_bound", "operator*", "operator->", "operator bool"):
                self.I.write(self.st, obj, v | X, weak=True, site=(fn, i))
        pt = nd.get("pt", [])
        off = 0
        for n, a in enumerate(args):
            t = pt[n] if n < len(pt) else ""
            if (t.endswith("&") or t.endswith("*")) and not t.startswith("const "):
                self.havoc(a)
        if obj is not None: out |= Interp.deps(self.I.read(self.st, obj))
        out.add(("fn", base))
        self.vals[i] = frozenset(out)
    def partial_size(self, args):
        """does memcpy/memset cover less than the whole destination array?"""
        if len(args) < 3: return False
        n = self.fn.cv(args[2])
        if n is None: return False
        d = self.fn.strip(args[0]); t = self.fn.n(d).get("t", "")
        m = re.match(r"^(?:const )?([\w:* ]+?)\s*((?:\[\d+\])+)$", t)
        if not m: return False
        sz = self.SIZES.get(m.group(1).replace("const ", "").strip())
        if sz is None: return False
        for x in re.findall(r"\d+", m.group(2)): sz *= int(x)
        return n < sz
    SIZES = {"char": 1, "unsigned char": 1, "signed char": 1, "uint8_t": 1, "Pred": 1, "reflex::Pattern::Pred": 1, "bool": 1, "short": 2, "unsigned short": 2, "uint16_t": 2, "reflex::Pattern::Hash": 2, "Hash": 2, "int": 4, "unsigned int": 4, "uint32_t": 4, "wchar_t": 4, "long": 8, "size_t": 8, "unsigned long": 8}
    def havoc(self, a):
        p = self.path(a)
        if p is None: return
        if p[-1] == "&": p = p[:-1]
        elif self.fn.n(a).get("lv") is None and self.fn.n(a).get("t", "").endswith("*"): p = p + ("*",)
        if p == ("this",) or p == ("this", "*"): return
        self.I.write(self.st, p, X, weak=True, site=(self.fn, a))
    def invoke(self, callee, obj, args, i, dyn=None):
        I = self.I; fn = self.fn
        env = {}; argv = {}
        if obj is not None: env["this"] = obj
        cmod = None
        sub = None
        for n, p in enumerate(callee.params):
            if n >= len(args): break
            a = args[n]; t = p["t"]
            q = self.path(a)
            if t.endswith("&"):
                if q is not None: env[p["d"]] = q; continue
                argv[p["d"]] = self.val(a); continue
            if t.rstrip("const ").rstrip().endswith("*") and q is not None:
                if cmod is None:
                    tmp = Act(I, callee, {}, "", 0); cmod = tmp.mod
                if p["d"] not in cmod and not (I.read(self.st, q) and all(x[0] in ("c", "s") for x in I.read(self.st, q))):
                    env[p["d"]] = q; continue
            argv[p["d"]] = self.val(a)
        saved = self.st
        res, rv, A = I.run(callee, saved, env, self.depth + 1, argv)
        if res is None:
            self.dead = True; return X, None
        # drop the locals of the callee
        pref = A.pref
        self.st = {p: v for p, v in res.items() if not p[0].startswith(pref + "$")}
        rp = next(iter(A.retpaths)) if len(A.retpaths) == 1 else None
        return rv or X, rp

def rpo(fn):
    seen = set(); out = []
    st = [(fn.entry, iter([s for s in fn.cfg[fn.entry]["s"] if s is not None]))]
    seen.add(fn.entry)
    while st:
        b, it = st[-1]
        for s in it:
            if s not in seen:
                seen.add(s); st.append((s, iter([x for x in fn.cfg[s]["s"] if x is not None]))); break
        else:
            out.append(b); st.pop()
    out.reverse()
    if fn.exit not in seen: out.append(fn.exit)
    return out

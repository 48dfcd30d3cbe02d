"""Affine abstract evaluator: integers and char pointers are linear forms over symbolic atoms, paths carry linear facts.
Loops are summarised by havocking what they modify and keeping those template facts which are inductive (Houdini style).
Entailment is a bounded search for a non-negative combination of known facts; anything not found counts as unknown."""
from core import *
import itertools

class L:
    """linear form: sum of coefficient*atom + constant"""
    __slots__ = ("a", "c", "_h")
    def __init__(self, a=(), c=0):
        self.a = a if isinstance(a, tuple) else tuple(sorted((k, v) for k, v in a.items() if v)); self.c = c; self._h = None
    def __add__(self, o): return self.comb(o, 1)
    def __sub__(self, o): return self.comb(o, -1)
    def comb(self, o, f):
        if isinstance(o, int): return L(self.a, self.c + f * o)
        d = dict(self.a)
        for k, v in o.a:
            d[k] = d.get(k, 0) + f * v
        return L(d, self.c + f * o.c)
    def mul(self, k): return L({n: v * k for n, v in self.a}, self.c * k)
    def const(self): return self.c if not self.a else None
    def __eq__(self, o): return isinstance(o, L) and self.a == o.a and self.c == o.c
    def __hash__(self):
        if self._h is None: self._h = hash((self.a, self.c))
        return self._h
    def __repr__(self): return "+".join(["%s%s" % ("" if v == 1 else "%d*" % v, k) for k, v in self.a] + ([str(self.c)] if self.c or not self.a else [])).replace("+-", "-")
    def atoms(self): return {k for k, _ in self.a}

def N(c): return L((), c)

class Cond:
    def __init__(self, op, a, b): self.op = op; self.a = a; self.b = b
    def __repr__(self): return "(%r %s %r)" % (self.a, self.op, self.b)

class St:
    def __init__(self):
        self.mem = {}; self.facts = (); self.neq = (); self.vals = {}; self.truths = {}; self.x = {}; self.ev = (); self.done = frozenset()
    def copy(self):
        s = St(); s.mem = dict(self.mem); s.facts = self.facts; s.neq = self.neq; s.vals = dict(self.vals); s.truths = dict(self.truths); s.x = dict(self.x); s.ev = self.ev; s.done = self.done; s.norm = getattr(self, "norm", None)
        return s
    def fact(self, l):
        if l.const() is not None: return l.c >= 0
        if l not in self.facts: self.facts += (l,)
        return True
    def eq(self, l): return self.fact(l) and self.fact(l.mul(-1))

class Norm:
    """the facts of a path with equalities substituted and the strongest of each direction kept"""
    __slots__ = ("sub", "tab", "idx")
    def __init__(self): self.sub = {}; self.tab = {}; self.idx = None
    def copy(self):
        n = Norm(); n.sub = dict(self.sub); n.tab = dict(self.tab); return n
    def apply(self, l):
        if not self.sub: return l
        for k, v in l.a:
            if k in self.sub: break
        else: return l
        d = {}; c = l.c
        for k, v in l.a:
            s = self.sub.get(k)
            if s is None: d[k] = d.get(k, 0) + v
            else:
                c += v * s.c
                for k2, v2 in s.a: d[k2] = d.get(k2, 0) + v * v2
        return L(d, c)
    def add(self, f):
        work = [f]
        while work:
            f = self.apply(work.pop())
            if not f.a: continue
            o = self.tab.get(f.a)
            if o is not None and o <= f.c: continue
            g = tuple((k, -v) for k, v in f.a)
            if self.tab.get(g) == -f.c:
                # an equality: solve for an atom
                for k, v in f.a:
                    if abs(v) == 1: break
                else: self.tab[f.a] = f.c; continue
                e = L(tuple((k2, -v2 * v) for k2, v2 in f.a if k2 != k), -f.c * v)
                for q, x in list(self.sub.items()):
                    if any(k2 == k for k2, _ in x.a): self.sub[q] = self.apply1(x, k, e)
                self.sub[k] = e
                del self.tab[g]; self.tab.pop(f.a, None)
                for q, c in list(self.tab.items()):
                    if any(k2 == k for k2, _ in q): del self.tab[q]; work.append(L(q, c))
            else: self.tab[f.a] = f.c
        self.idx = None
    def apply1(self, x, k, e):
        d = {}; c = x.c
        for k1, v in x.a:
            if k1 == k:
                c += v * e.c
                for k2, v2 in e.a: d[k2] = d.get(k2, 0) + v * v2
            else: d[k1] = d.get(k1, 0) + v
        return L(d, c)

def norm(st):
    f = st.facts; n = getattr(st, "norm", None)
    if n is not None and n[0] is f: return n[1]
    if n is not None and len(n[0]) <= len(f) and (n[0] is f[:0] or f[:len(n[0])] == n[0]): m = n[1].copy(); new = f[len(n[0]):]
    else: m = Norm(); new = f
    for l in new: m.add(l)
    st.norm = (f, m)
    return m

def prove(st, t, depth=6):
    """t >= 0 from the facts"""
    if t.const() is not None: return t.c >= 0
    m = norm(st); t = m.apply(t)
    if not t.a: return t.c >= 0
    if m.idx is None:
        m.idx = {}
        for a, c in m.tab.items():
            f = L(a, c)
            for k, v in a: m.idx.setdefault((k, v > 0), []).append((f, abs(v)))
        for v in m.idx.values(): v.sort(key=lambda x: (len(x[0].a), x[0].c))
    idx = m.idx
    seen = set()
    budget = [3000]
    def rec(r, d):
        if not r.a: return r.c >= 0
        if d == 0 or budget[0] <= 0: return False
        if (r, d) in seen: return False
        seen.add((r, d)); budget[0] -= 1
        # choose the atom with the fewest candidate facts
        best = None
        for k, v in r.a:
            c = idx.get((k, v > 0), ())
            if best is None or len(c) < len(best[1]):
                best = ((k, v), c)
                if not c: return False
        (k, v), cand = best
        for f, w in cand:
            q = abs(v)
            if q % w == 0: nr = r - f.mul(q // w)
            else: nr = r.mul(w) - f.mul(q)
            if len(nr.a) > 6: continue
            if rec(nr, d - 1): return True
        return False
    return rec(t, depth)

NEG = {"==": "!=", "!=": "==", "<": ">=", ">=": "<", ">": "<=", "<=": ">"}

class Aff:
    """hooks: object with methods call(F, st, i, fid, obj, args) -> None | list of (st, value); deref(F, st, addr, i, write, value) ; store(F, st, path, value, i)"""
    def __init__(self, P, hooks, maxdepth=12, inline=None):
        self.P = P; self.H = hooks; self.n = 0; self.maxdepth = maxdepth; self.inline = inline or (lambda c: True); self.paths = 0; self.limit = 20000
        self.reports = []; self._mods = {}
    def fresh(self, name, st=None, lo=None, hi=None):
        self.n += 1; a = L({"%s.%d" % (name, self.n): 1})
        if st is not None:
            if lo is not None: st.fact(a - lo)
            if hi is not None: st.fact(N(hi) - a)
        return a
    def typed(self, st, name, t):
        t = (t or "").replace("const ", "").strip()
        if t == "bool": return self.fresh(name, st, 0, 1)
        if t in ("unsigned char", "uint8_t"): return self.fresh(name, st, 0, 255)
        if t.startswith("unsigned") or t in ("size_t", "uint32_t", "uint16_t", "uint64_t"): return self.fresh(name, st, 0)
        if t.endswith("*") or re.match(r"^(signed )?(char|short|int|long|long long|wchar_t|int\d+_t|ptrdiff_t)$", t): return self.fresh(name, st)
        return None
    def run(self, fn, st, env=None, depth=0, args=()):
        """-> list of (state, return value)"""
        self.n += 1
        F = Frame(self, fn, "f%d" % self.n, env if env is not None else {"this": ("this",)}, depth)
        for n, p in enumerate(fn.params):
            path = (F.fr + p["d"],) if isinstance(p, dict) else (F.fr + p,)
            if n < len(args):
                if isinstance(args[n], tuple): F.env[p["d"]] = args[n]
                else: st.mem[path] = args[n]
        return F.explore(fn.entry, st)
    def report(self, *a): self.reports.append(a)
    def mods(self, fn, seen=None):
        """member paths of this that fn (and methods it calls on this) may modify"""
        if fn.id in self._mods: return self._mods[fn.id]
        self._mods[fn.id] = set()
        out = set()
        for i, nd in enumerate(fn.nodes):
            p = None
            if nd["k"] in ("BinaryOperator", "CompoundAssignOperator") and nd["op"].endswith("=") and nd["op"] not in ("==", "!=", "<=", ">="): p = fn.path(nd["c"][0])
            elif nd["k"] == "UnaryOperator" and nd["op"] in ("++", "--"): p = fn.path(nd["c"][0])
            if p and p[0] == "this": out.add(p)
            if nd["k"] in ("CallExpr", "CXXMemberCallExpr") and nd.get("fn"):
                h = self.H.modset(nd["fn"])
                if h is not None: out |= h; continue
                g = self.P.fns.get(nd["fn"])
                if g is not None and nd.get("mem"):
                    me = fn.n(fn.strip(nd["c"][0]))
                    if me["k"] == "MemberExpr" and me.get("c") and fn.path(me["c"][0]) == ("this",): out |= self.mods(g)
        self._mods[fn.id] = out
        return out

class Frame:
    def __init__(self, E, fn, fr, env, depth):
        self.E = E; self.fn = fn; self.fr = fr; self.env = dict(env); self.depth = depth
        self.loops = loops(fn); self.active = {}
    # ---- paths
    def path(self, i):
        p = self.fn.path(i)
        return self.sub(p)
    def sub(self, p):
        if p is None: return None
        r = p[0]
        if r in self.env: return self.env[r] + p[1:] if self.env[r] is not None else None
        if r == "this" or r.startswith("::"): return p
        return (self.fr + r,) + p[1:]
    # ---- control
    def explore(self, b, st):
        out = []; work = [(b, 0, st, None)]
        while work:
            b, k, st, _ = work.pop()
            if k == 0 and b == self.fn.exit:
                out.append((st, st.vals.pop((self.fr, "ret"), None))); 
                self.E.paths += 1
                if self.E.paths > self.E.limit: raise AnalysisError("too many paths in " + self.fn.id)
                continue
            if k == 0 and b in self.loops:
                if b in self.active:
                    cands, failed, h0 = self.active[b]
                    self.backedge(b, st, cands, failed, h0); continue
                out += self.loop(b, st); continue
            work += self.block(b, k, st)
        return out
    def loop(self, b, st):
        E = self.E; mod = self.modified(b, st) + [p for p in getattr(E.H, "ghosts", ()) if p in st.mem]
        old = {p: st.mem.get(p) for p in mod}
        base = st
        cands = None; dropped = set(); variants = [E.H.variant(st)]
        for rnd in range(16):
            nrep = len(E.reports); res = []; failed = set(); nv = 0
            while nv < len(variants) and not failed:
                s = base.copy()
                for p in mod: s.mem[p] = E.fresh(p[-1], s) if isinstance(old[p], (L, Cond)) else None
                E.H.havoc(self, s, mod, variants[nv]); nv += 1
                if cands is None: cands = [c for c in self.templates(base, s, mod, old) if E.H.holds(self, base, c, old)]
                use = [c for c in cands if c[0] not in dropped]
                for c in use: E.H.assume(self, s, c, old)
                self.active[b] = (use, failed, (s, old, variants))
                for x in self.block(b, 0, s): res += self.explore_from(*x)
                del self.active[b]
            if not failed: return res
            del E.reports[nrep:]
            dropped |= failed
        raise AnalysisError("no inductive facts for a loop in " + self.fn.id)
    def explore_from(self, b, k, st, _):
        if k == 0: return self.explore(b, st)
        out = []
        for x in self.block(b, k, st): out += self.explore_from(*x)
        return out
    def backedge(self, b, st, cands, failed, h0):
        s, old, variants = h0
        v = self.E.H.variant(st)
        if v not in variants: variants.append(v)
        for c in cands:
            if not self.E.H.holds(self, st, c, old): failed.add(c[0])
        self.E.H.back(self, st, s)
    def modified(self, h, st):
        fn = self.fn; out = []; body = self.loops[h]
        def addp(p):
            p = self.sub(p)
            if p is not None and p not in out: out.append(p)
        for b in body:
            B = fn.cfg[b]
            for e in B["e"]:
                if isinstance(e, dict): continue
                nd = fn.n(e)
                if nd["k"] in ("BinaryOperator", "CompoundAssignOperator") and nd["op"].endswith("=") and nd["op"] not in ("==", "!=", "<=", ">="): addp(fn.path(nd["c"][0]))
                elif nd["k"] == "UnaryOperator" and nd["op"] in ("++", "--"): addp(fn.path(nd["c"][0]))
                elif nd["k"] == "UnaryOperator" and nd["op"] == "&":
                    p = fn.path(nd["c"][0])
                    if p and p[-1] != "*": addp(p)
                elif nd["k"] in ("CallExpr", "CXXMemberCallExpr") and nd.get("fn"):
                    h2 = self.E.H.modset(nd["fn"])
                    if h2 is None:
                        g = self.E.P.fns.get(nd["fn"])
                        if g is not None and nd.get("mem"):
                            me = fn.n(fn.strip(nd["c"][0]))
                            if me["k"] == "MemberExpr" and me.get("c") and fn.path(me["c"][0]) == ("this",): h2 = self.E.mods(g)
                    for p in sorted(h2 or ()): addp(p)
                    pt = nd.get("pt", [])
                    for n, a in enumerate(nd["c"][1:]):
                        t = pt[n] if n < len(pt) else ""
                        if t.endswith("&") and not t.startswith("const "): addp(fn.path(a))
        return out
    def templates(self, base, s, mod, old):
        """candidate facts: (id, function(state) -> linear form that has to be >= 0)"""
        out = self.E.H.templates(self, base, mod)
        for p in mod:
            if isinstance(old[p], L):
                out.append((("up", p), lambda st, p=p, o=old[p]: st.mem[p] - o if isinstance(st.mem.get(p), L) else None))
                out.append((("dn", p), lambda st, p=p, o=old[p]: o - st.mem[p] if isinstance(st.mem.get(p), L) else None))
        return out
    def block(self, b, k, st):
        fn = self.fn; B = fn.cfg[b]; els = B["e"]
        while k < len(els):
            e = els[k]; k += 1
            if isinstance(e, dict):
                if "dtor" not in e: self.ctor_init(st, e)
                continue
            r = self.elem(st, e)
            if r is None: return []
            if r is not True: return [(b, k, s, None) for s in r]
        if B.get("noret"): return []
        succ = B["s"]
        if B.get("tk") == "SwitchStmt":
            v = self.val(st, B["cond"]); out = []; labs = []
            for s in succ:
                if s is None: continue
                ns = st.copy(); lab = fn.cfg[s].get("label")
                if isinstance(v, L) and lab is not None and lab >= 0 and fn.k(lab) == "CaseStmt":
                    c = fn.cv(fn.n(lab)["lo"])
                    if c is not None and fn.n(lab).get("hi", -1) < 0 and not ns.eq(v - c): continue
                out.append((s, 0, ns, None))
            return out
        if "cond" in B and len(succ) == 2:
            c = B.get("lc", B["cond"]); out = []
            for t, s in self.split(st, c):
                s.truths[(self.fr, fn.strip(c))] = t
                n = succ[0] if t else succ[1]
                if n is not None: out.append((n, 0, s, None))
            return out
        return [(s, 0, st if n == len(succ) - 1 else st.copy(), None) for n, s in enumerate(succ) if s is not None]
    def split(self, st, c):
        fn = self.fn; i = fn.strip(c); nd = fn.n(i)
        if nd["k"] == "UnaryOperator" and nd["op"] == "!": return [(not t, s) for t, s in self.split(st, nd["c"][0])]
        v = self.val(st, c)
        if v is None: v = self.val(st, i)
        return self.E.H.cond(self, st, v, i) or self.decide(st, v)
    def decide(self, st, v):
        """[(truth, state)]"""
        if isinstance(v, L): v = Cond("!=", v, N(0))
        if not isinstance(v, Cond) or not isinstance(v.a, L) or not isinstance(v.b, L): return [(True, st.copy()), (False, st.copy())]
        out = []
        for t in (True, False):
            op = v.op if t else NEG[v.op]; d = v.b - v.a
            if op in ("<", "<=", ">", ">="):
                if op == "<": f = d - 1
                elif op == "<=": f = d
                elif op == ">": f = d.mul(-1) - 1
                else: f = d.mul(-1)
                if prove(st, f.mul(-1) - 1): continue
                s = st.copy()
                if not s.fact(f): continue
                self.tighten(s); out.append((t, s))
            elif op == "==":
                if d.const() not in (None, 0): continue
                if d in st.neq or d.mul(-1) in st.neq or prove(st, d - 1) or prove(st, d.mul(-1) - 1): continue
                s = st.copy(); s.eq(d); out.append((t, s))
            else:
                if d.const() == 0: continue
                if prove(st, d) and prove(st, d.mul(-1)): continue
                s = st.copy()
                if d.const() is None: s.neq += (d,); self.tighten(s)
                out.append((t, s))
        return out
    def tighten(self, s):
        for d in s.neq:
            if prove(s, d, 3): s.fact(d - 1)
            elif prove(s, d.mul(-1), 3): s.fact(d.mul(-1) - 1)
    # ---- values
    def val(self, st, i):
        if i is None or i < 0: return None
        nd = self.fn.n(i)
        if isinstance(nd.get("cv"), int): return N(nd["cv"])
        if nd["k"] in ("GNUNullExpr", "CXXNullPtrLiteralExpr"): return N(0)
        k = (self.fr, i)
        if k in st.vals: return st.vals[k]
        if nd["k"] in STRIP and nd.get("c"): return self.val(st, nd["c"][0])
        if nd["k"] == "CXXThisExpr": return None
        # not an element of the control flow graph: evaluate in place
        return self.eval(st, i)
    def addr(self, st, i):
        """address denoted by an lvalue that goes through a pointer, as a linear form"""
        fn = self.fn; i = fn.strip(i); nd = fn.n(i); k = nd["k"]
        if k == "UnaryOperator" and nd["op"] == "*": return self.val(st, nd["c"][0])
        if k == "ArraySubscriptExpr":
            a, b = self.val(st, nd["c"][0]), self.val(st, nd["c"][1])
            if isinstance(a, L) and isinstance(b, L) and self.scale(nd["c"][0]) == 1: return a + b
            return None
        return None
    def scale(self, i):
        t = self.fn.n(i).get("t", "")
        t = t.replace("const ", "").replace(" const", "").strip()
        return 1 if t in ("char *", "unsigned char *", "signed char *", "uint8_t *") or re.match(r"^(unsigned |signed )?char\s*\[\d*\]$", t) else None
    def deref(self, st, i):
        nd = self.fn.n(self.fn.strip(i))
        return nd["k"] == "ArraySubscriptExpr" or (nd["k"] == "UnaryOperator" and nd["op"] == "*")
    def eval(self, st, i):
        fn = self.fn; nd = fn.n(i); k = nd["k"]; c = nd.get("c", ()); E = self.E
        if isinstance(nd.get("cv"), int): return N(nd["cv"])
        if k == "ImplicitCastExpr" and nd.get("ck") == "LValueToRValue":
            b = fn.strip(c[0])
            if fn.k(b) == "ConditionalOperator":
                j = self.arm(st, b)
                return self.rvalue(st, j, nd.get("t")) if j is not None else E.typed(st, "c", nd.get("t"))
            if fn.k(b) in ("BinaryOperator", "CompoundAssignOperator", "UnaryOperator") and (self.fr, b) in st.vals and fn.n(b)["op"] not in ("*",): return st.vals[(self.fr, b)]
            return self.rvalue(st, c[0], nd.get("t"))
        if k == "ImplicitCastExpr" and nd.get("ck") == "ArrayToPointerDecay":
            p = self.path(c[0])
            if p is not None:
                q = p + ("[]",)
                if q not in st.mem: st.mem[q] = E.fresh(p[-1])
                return st.mem[q]
            return None
        if k in ("ImplicitCastExpr", "CStyleCastExpr", "CXXStaticCastExpr", "CXXFunctionalCastExpr", "CXXReinterpretCastExpr"):
            v = self.val(st, c[0])
            t = nd.get("t", "").replace("const ", "")
            if t in ("unsigned char", "uint8_t") and isinstance(v, L):
                return E.H.uchar(self, st, v)
            if t == "bool" and isinstance(v, L) and nd.get("ck") not in ("NoOp",): return Cond("!=", v, N(0))
            if isinstance(v, Cond) and t != "bool":
                return v
            return v
        if k in STRIP and c: return self.val(st, c[0])
        if k == "UnaryOperator":
            v = self.val(st, c[0])
            if nd["op"] == "-" and isinstance(v, L): return v.mul(-1)
            if nd["op"] == "!":
                if isinstance(v, Cond): return Cond(NEG[v.op], v.a, v.b)
                if isinstance(v, L): return Cond("==", v, N(0))
            if nd["op"] == "&":
                if self.deref(st, c[0]): return self.addr(st, c[0])
                return None
            if nd["op"] == "+": return v
            if nd["op"] == "*": return None
            return E.typed(st, "u", nd.get("t"))
        if k == "BinaryOperator":
            op = nd["op"]
            if op == ",": return self.val(st, c[1])
            if op in ("&&", "||"): a = b = None
            else: a, b = self.val(st, c[0]), self.val(st, c[1])
            if op in NEG: return Cond(op, self.num(a), self.num(b))
            if op in ("&&", "||"):
                t = self.truth(st, c[0])
                if t is None: return None
                if t == (op == "||"): return N(1 if t else 0)
                return self.val(st, c[1])
            if isinstance(a, L) and isinstance(b, L):
                if op in ("+", "-"):
                    t0, t1 = fn.n(c[0]).get("t", ""), fn.n(c[1]).get("t", "")
                    for j in (0, 1):
                        if fn.n(c[j]).get("t", "").endswith("*") and not self.scale(c[j]): return E.fresh("p", st)
                    return a + b if op == "+" else a - b
                if op == "*":
                    if a.const() is not None: return b.mul(a.c)
                    if b.const() is not None: return a.mul(b.c)
            return E.typed(st, "b", nd.get("t"))
        if k == "ConditionalOperator":
            j = self.arm(st, i)
            return self.val(st, j) if j is not None else E.typed(st, "c", nd.get("t"))
        if k == "CXXNewExpr": return E.H.new(self, st, i)
        return E.typed(st, k, nd.get("t"))
    def arm(self, st, i):
        """the arm of a conditional operator that was taken"""
        fn = self.fn; c = fn.n(i)["c"]; t = self.truth(st, c[0])
        if t is not None: return c[1] if t else c[2]
        cs = [j for j in (c[1], c[2]) if any((self.fr, x) in st.vals for x in fn.walk(j))]
        return cs[0] if len(cs) == 1 else None
    def truth(self, st, i):
        """which way a condition went on this path"""
        fn = self.fn; i = fn.strip(i); nd = fn.n(i)
        if nd["k"] == "UnaryOperator" and nd["op"] == "!":
            t = self.truth(st, nd["c"][0]); return None if t is None else not t
        if nd["k"] == "BinaryOperator" and nd["op"] in ("&&", "||"):
            t = self.truth(st, nd["c"][0])
            if t is None or t == (nd["op"] == "||"): return t
            return self.truth(st, nd["c"][1])
        t = st.truths.get((self.fr, i))
        if t is None:
            v = st.vals.get((self.fr, i))
            if isinstance(v, L) and v.const() is not None: t = bool(v.c)
        return t
    def rvalue(self, st, i, t):
        """the value an lvalue holds"""
        E = self.E; p = self.path(i)
        if self.deref(st, i): return E.H.load(self, st, self.addr(st, i), i, t)
        if p is not None:
            if p not in st.mem: st.mem[p] = E.typed(st, p[-1], t)
            E.H.member(self, st, p, st.mem[p], i)
            return st.mem[p]
        return E.typed(st, "v", t)
    def num(self, v):
        return v
    # ---- effects
    def store(self, st, lhs, v, i):
        fn = self.fn
        if self.deref(st, lhs):
            return self.E.H.write(self, st, self.addr(st, lhs), v, lhs)
        p = self.path(lhs)
        if p is None: return None
        r = self.E.H.store(self, st, p, v, i)
        if r is None: st.mem[p] = v
        return r
    def elem(self, st, i):
        fn = self.fn; nd = fn.n(i); k = nd["k"]; c = nd.get("c", ()); E = self.E
        if isinstance(nd.get("cv"), int): st.vals[(self.fr, i)] = N(nd["cv"]); return True
        if k == "DeclStmt":
            for d in nd["decls"]:
                if d.get("static"): continue
                if d["t"].endswith("&"):
                    continue
                p = (self.fr + d["d"],)
                st.mem[p] = self.val(st, d["i"]) if d["i"] >= 0 else None
                if d["i"] >= 0 and st.mem[p] is None: st.mem[p] = E.typed(st, d["n"] if "n" in d else "l", d["t"])
            return True
        if k == "BinaryOperator" and nd["op"] == "=":
            v = self.val(st, c[1])
            if v is None: v = E.typed(st, "v", nd.get("t"))
            r = self.store(st, c[0], v, i); st.vals[(self.fr, i)] = v
            return r if isinstance(r, list) else True
        if k == "CompoundAssignOperator":
            old = self.lv(st, c[0]); b = self.val(st, c[1]); op = nd["op"]; v = None
            if isinstance(old, L) and isinstance(b, L):
                sc = not fn.n(c[0]).get("t", "").endswith("*") or self.scale(c[0])
                if op == "+=" and sc: v = old + b
                elif op == "-=" and sc: v = old - b
                elif op == "*=" and b.const() is not None and b.c >= 1:
                    v = E.fresh("m", st); st.fact(v - old)
            if v is None: v = E.typed(st, "x", nd.get("t"))
            r = self.store(st, c[0], v, i); st.vals[(self.fr, i)] = v
            return r if isinstance(r, list) else True
        if k == "UnaryOperator" and nd["op"] in ("++", "--"):
            old = self.lv(st, c[0]); d = 1 if nd["op"] == "++" else -1
            v = old + d if isinstance(old, L) and (not fn.n(c[0]).get("t", "").endswith("*") or self.scale(c[0])) else E.typed(st, "x", nd.get("t"))
            r = self.store(st, c[0], v, i); st.vals[(self.fr, i)] = old if nd.get("post") else v
            return r if isinstance(r, list) else True
        if k == "ReturnStmt":
            if nd["e"] >= 0: st.vals[(self.fr, "ret")] = self.val(st, nd["e"])
            return True
        if k in ("CallExpr", "CXXMemberCallExpr", "CXXOperatorCallExpr"): return self.call(st, i)
        if k == "CXXThrowExpr": return None
        st.vals[(self.fr, i)] = self.eval(st, i)
        return True
    def lv(self, st, lhs):
        if self.deref(st, lhs): return self.E.H.load(self, st, self.addr(st, lhs), lhs, self.fn.n(self.fn.strip(lhs)).get("t"))
        p = self.path(lhs)
        if p is None: return None
        if p not in st.mem: st.mem[p] = self.E.typed(st, p[-1], self.fn.n(self.fn.strip(lhs)).get("t"))
        return st.mem[p]
    def ctor_init(self, st, e): pass
    def call(self, st, i):
        fn = self.fn; nd = fn.n(i); c = list(nd.get("c", ())); E = self.E
        fid = nd.get("fn"); args = c[1:]; obj = None
        if nd.get("mem"):
            me = fn.n(fn.strip(c[0]))
            if me["k"] == "MemberExpr" and me.get("c"):
                obj = self.path(me["c"][0])
                if obj is not None and me.get("arrow") and fn.k(fn.strip(me["c"][0])) != "CXXThisExpr": obj = obj + ("*",)
        elif nd["k"] == "CXXOperatorCallExpr" and nd.get("cls") and args:
            obj = self.path(args[0]); args = args[1:]
        if nd.get("noret"): return None
        av = [self.val(st, a) for a in args]
        r = E.H.call(self, st, i, fid, obj, args, av)
        if r is not None:
            out = []
            for s, v in r: s.vals[(self.fr, i)] = v; out.append(s)
            return out
        g = E.P.fns.get(fid)
        if g is not None and g.cfg is not None and self.depth < E.maxdepth and (obj is not None or not nd.get("mem")) and E.inline(g):
            a2 = []
            for n, a in enumerate(args):
                t = g.params[n]["t"] if n < len(g.params) else ""
                if t.endswith("&"):
                    a2.append(self.path(a) or (self.fr + "tmp%d" % a,))
                else: a2.append(av[n])
            E.n += 1
            G = Frame(E, g, "f%d" % E.n, {"this": obj} if obj is not None else {}, self.depth + 1)
            for n, p in enumerate(g.params):
                if n < len(a2):
                    if isinstance(a2[n], tuple): G.env[p["d"]] = a2[n]
                    else: st.mem[(G.fr + p["d"],)] = a2[n]
            G.caller = (self, i)
            out = []
            for s, v in G.explore(g.entry, st):
                for key in [q for q in s.vals if q[0] == G.fr]: del s.vals[key]
                for key in [q for q in s.mem if q[0].startswith(G.fr)]: del s.mem[key]
                s.vals[(self.fr, i)] = v; out.append(s)
            return out
        # unknown callee: arguments passed by reference are lost
        pt = nd.get("pt", [])
        for n, a in enumerate(args):
            t = pt[n] if n < len(pt) else ""
            if (t.endswith("&") or t.endswith("*")) and not t.startswith("const "):
                b = fn.strip(a)
                p = self.path(a)
                if p is not None and p[-1] == "&": p = p[:-1]
                elif t.endswith("*"): p = None
                if p is not None:
                    st.mem[p] = None
        st.vals[(self.fr, i)] = E.typed(st, nd.get("n", "r"), nd.get("t"))
        return True

def loops(fn):
    """header -> blocks of the natural loop"""
    if getattr(fn, "_loops", None) is not None: return fn._loops
    order = {}; onst = set(); back = []
    seen = set(); st = [(fn.entry, iter([s for s in fn.cfg[fn.entry]["s"] if s is not None]))]; seen.add(fn.entry); onst.add(fn.entry)
    while st:
        b, it = st[-1]
        for s in it:
            if s in onst: back.append((b, s))
            elif s not in seen:
                seen.add(s); onst.add(s); st.append((s, iter([x for x in fn.cfg[s]["s"] if x is not None]))); break
        else:
            st.pop(); onst.discard(b)
    pred = {}
    for b in seen:
        for s in fn.cfg[b]["s"]:
            if s is not None: pred.setdefault(s, []).append(b)
    out = {}
    for t, h in back:
        body = out.setdefault(h, {h}); w = [t]
        while w:
            x = w.pop()
            if x in body: continue
            body.add(x); w += pred.get(x, [])
    fn._loops = out
    return out

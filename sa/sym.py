"""Herbrand (uninterpreted term) domain on top of ev.py: whatever the bit-slice domain cannot decide becomes a canonical term, and a
branch on such a term is followed both ways under a literal. Two pieces of code are compared by their summaries: sets of (literals,
effects). Paths whose literals are compatible must have equal effects. Nothing is run and no solver is asked."""
from ev import *
import ev

PURE = {"size", "empty", "back", "front", "top", "at", "begin", "end", "rbegin", "rend", "data", "c_str", "find", "count"}
COMM = {"+", "*", "==", "!=", "&", "|", "^"}
FLIP = {">": "<", ">=": "<="}

def key(v):
    if isinstance(v, BV):
        c = v.const()
        return c if c is not None else ("bits", v.bits, v.lo, v.hi)
    if isinstance(v, Opq): return v.tag
    if isinstance(v, Ptr): return ("ptr", v.path, v.off)
    if isinstance(v, tuple): return ("obj", v)
    return ("?",)

def linear(x):
    if isinstance(x, int): return (), x
    if isinstance(x, tuple) and x[:1] == ("lin",): return x[1], x[2]
    if isinstance(x, tuple) and x[:1] == ("+",) and isinstance(x[2], int): t, k = linear(x[1]); return t, k + x[2]
    return ((x, 1),), 0

def subst(x, lits):
    """term x where the literals hold: what they say is zero or a constant is written so"""
    if not isinstance(x, tuple): return x
    if lits.get(x) is False: return 0
    for t, v in lits.items():
        if v and isinstance(t, tuple) and t[:1] == ("==",):
            if t[1] == x and isinstance(t[2], int): return t[2]
            if t[2] == x and isinstance(t[1], int): return t[1]
    return tuple(subst(y, lits) for y in x)

def mk(op, a, b):
    """canonical term of a binary operation on keys"""
    if op in FLIP: op, a, b = FLIP[op], b, a
    if op in ("+", "-"):
        l = {}; n = 0
        for x, sg in ((a, 1), (b, 1 if op == "+" else -1)):
            t, k = linear(x); n += sg * k
            for y, q in t: l[y] = l.get(y, 0) + sg * q
        l = tuple(sorted(((y, q) for y, q in l.items() if q), key=repr))
        if not l: return n
        if len(l) == 1 and l[0][1] == 1: return l[0][0] if n == 0 else ("+", l[0][0], n)
        return ("lin", l, n)
    if op in COMM and repr(a) > repr(b): a, b = b, a
    if op == "!=": return ("!", ("==", a, b))
    if op == "<=": return ("!", ("<", b, a))
    return (op, a, b)

def neg(t): return t[1] if isinstance(t, tuple) and t[0] == "!" else ("!", t)

def implied(facts, t):
    """truth of literal t under the facts, None when open"""
    n = True
    while isinstance(t, tuple) and t[0] == "!": t = t[1]; n = not n
    if t in facts: return facts[t] == n
    if isinstance(t, tuple) and t[0] == "==":
        for k, x in ((t[1], t[2]), (t[2], t[1])):
            if isinstance(k, int):
                for f, v in facts.items():
                    if v and isinstance(f, tuple) and f[0] == "==" and ((f[1] == x and isinstance(f[2], int) and f[2] != k) or (f[2] == x and isinstance(f[1], int) and f[1] != k)): return not n
    # x != 0 for a truth value and comparison with zero
    if isinstance(t, tuple) and t[0] == "==" and 0 in t[1:3]:
        x = t[2] if t[1] == 0 and not isinstance(t[1], bool) else t[1]
        if x in facts and isinstance(x, tuple): return (not facts[x]) == n
    return None

class SState(State):
    __slots__ = ("lits",)
    def __init__(self): State.__init__(self); self.lits = {}
    def copy(self):
        s = SState(); s.mem = dict(self.mem); s.vals = dict(self.vals); s.truths = dict(self.truths); s.rng = dict(self.rng); s.facts = dict(self.facts); s.trace = self.trace; s.lits = dict(self.lits)
        return s

class Sym(Ev):
    def __init__(self, P, inline, call=None, init=None, limit=20000):
        Ev.__init__(self, P, call, Sym.unknown, limit); self.inline = inline; self.initial = init or {}
        self.const = {m["id"] for r in P.recs.values() for m in r["methods"] if m.get("cst") or m.get("stat")}
    def unknown(self, st, p, t=None):
        v = self.initial.get(p[-1] if len(p) > 1 and not isinstance(p[0], int) else p)
        if v is not None and not self.ver(st, p): return v
        return Opq(("mem", p[1:] if isinstance(p[0], int) else p, self.ver(st, p)))
    def ver(self, st, p): return sum(1 for e in st.trace if e[0] == "havoc" and e[2][:1] == ("at",) and p[:len(e[2][1])] == e[2][1])
    def frame_of(self, fn, fr, this, depth): return SFrame(self, fn, fr, this, depth)
    def run(self, fn, st, args=(), this=None, depth=0):
        if depth > self.maxdepth: raise AnalysisError("call depth exceeded in " + fn.id)
        self.fns.add(fn.id); self.frame += 1; fr = self.frame
        A = SFrame(self, fn, fr, this, depth)
        for n, p in enumerate(fn.params):
            if n >= len(args): break
            a = args[n]
            if isinstance(a, tuple): A.alias[p["d"]] = a
            else:
                w = self.wt(p["t"]); st.mem[(fr, p["d"])] = conv(a, *w) if w and isinstance(a, BV) else a
        out = []
        for s, why in A.walk([(fn.entry, 0, st)], None):
            r = s.vals.pop((fr, "ret"), None)
            for m in (s.mem, s.vals, s.truths):
                for d in [q for q in m if q[0] == fr]: del m[d]
            out.append((s, r))
        return out

class SFrame(Frame):
    def walk(self, work, stop):
        """follow the CFG from the given (block, element, state); stop(e, state) ends a path before element e -> [(state, element or None)]"""
        out = []; self.stop = stop; self.out = out; seen = {}
        while work:
            b, k, s = work.pop()
            self.E.steps += 1
            if self.E.steps > self.E.limit: raise AnalysisError("analysis of %s does not end" % self.fn.id)
            if b == self.fn.exit: out.append((s, None)); continue
            if self.looped(s, b): out.append((s, "loop")); continue
            work.extend(self.block(b, k, s))
        return out
    def looped(self, s, b):
        key = (self.fr, "seen", b); n = s.truths.get(key, 0); s.truths[key] = n + 1
        return n > 2
    def elem(self, st, i):
        if self.stop is not None and self.stop(i, st): self.out.append((st, i)); return None
        nd = self.fn.n(i)
        if nd["k"] == "UnaryOperator" and nd["op"] in ("++", "--"):
            old = self.val(st, nd["c"][0])
            if isinstance(old, Opq):
                t = mk("+" if nd["op"] == "++" else "-", old.tag, 1); new = Opq(t)
                v = self.store(st, nd["c"][0], new); st.vals[(self.fr, i)] = old if nd.get("post") else v; return True
        return Frame.elem(self, st, i)
    def block(self, b, k, st): return Frame.block(self, b, k, st)
    def both(self, st, i):
        v = self.val(st, i); t = key(v)
        return self.onlit(st, t)
    def onlit(self, st, t):
        if isinstance(t, int): return [(bool(t), st)]
        n = True
        while isinstance(t, tuple) and t[0] == "!": t = t[1]; n = not n
        d = implied(st.lits, t)
        if d is not None: return [(d == n, st)]
        s = st.copy(); st.lits[t] = n; s.lits[t] = not n
        return [(True, st), (False, s)]
    def split(self, st, c):
        fn = self.fn; i = fn.strip(c); nd = fn.n(i)
        if nd["k"] == "UnaryOperator" and nd["op"] == "!": return [(not t, s) for t, s in self.split(st, nd["c"][0])]
        v = self.val(st, c)
        if isinstance(v, Opq): return self.onlit(st, v.tag)
        if isinstance(v, Ptr): return [(True, st)]
        return Frame.split(self, st, c)
    def switch(self, st, B, succ):
        v = self.val(st, B["cond"])
        if not isinstance(v, Opq): return Frame.switch(self, st, B, succ)
        out = []; rest = st; deflt = None
        for s in succ:
            if s is None: continue
            vals = self.labels(self.fn.cfg[s].get("label"))
            if vals is None: deflt = s; continue
            for lo, hi in vals:
                if rest is None: continue
                r = self.onlit(rest, mk("==", v.tag, lo)) if lo == hi else self.onlit(rest, ("in", v.tag, lo, hi))
                rest = None
                for t, y in r:
                    if t: out.append((s, 0, y))
                    else: rest = y
        if rest is not None: out.append((deflt if deflt is not None else succ[-1], 0, rest))
        return out
    def decided(self, v): return isinstance(v, Ptr) or isinstance(v, Opq) or isinstance(v, BV) and any(b is not None for b in v.bits)
    def truth(self, st, x):
        t = st.truths.get((self.fr, self.fn.strip(x)))
        if t is not None: return t
        v = self.val(st, x)
        if isinstance(v, BV):
            z = conv(v, 1, 0).const(); return None if z is None else bool(z)
        if isinstance(v, Ptr): return True
        if isinstance(v, Opq): return implied(st.lits, v.tag)
        return None
    def eval(self, st, i):
        fn = self.fn; nd = fn.n(i); k = nd["k"]; c = nd.get("c", ())
        if k == "BinaryOperator" and nd["op"] in ("&&", "||"):
            a, b = self.truth(st, c[0]), self.truth(st, c[1]); o = nd["op"] == "||"
            if a is o or b is o: return K(int(o), 1, 0)
            if a is (not o): return self.val(st, c[1]) if b is None else K(int(b), 1, 0)
            if b is (not o): return self.val(st, c[0])
            return Opq((nd["op"], key(self.val(st, c[0])), key(self.val(st, c[1]))))
        if k == "UnaryOperator" and nd["op"] == "!":
            t = self.truth(st, c[0])
            return K(int(not t), 1, 0) if t is not None else Opq(neg(key(self.val(st, c[0]))))
        if k == "ConditionalOperator":
            t = self.truth(st, c[0])
            if t is not None: return self.val(st, c[1] if t else c[2])
            a, b = self.val(st, c[1]), self.val(st, c[2])
            return a if a == b else Opq(("?:", key(self.val(st, c[0])), key(a), key(b)))
        if k in CASTS and c:
            ck = nd.get("ck")
            if ck == "LValueToRValue":
                p = self.lval(st, c[0])
                if p is not None:
                    v = self.E.read(st, p, nd["t"])
                    if v is not TOP: return v
                return self.val(st, c[0])
            if ck in ("PointerToBoolean", "IntegralToBoolean"):
                v = self.val(st, c[0])
                if isinstance(v, Opq):
                    t = v.tag
                    if isinstance(t, tuple) and t[0] in ("!", "==", "<", "in"): return v
                    return Opq(("!", mk("==", t, 0)))
            if ck == "IntegralCast":
                v = self.val(st, c[0])
                if isinstance(v, Opq):
                    w, f = self.E.wt(nd["t"]), self.E.wt(fn.n(c[0]).get("t", ""))
                    if w and f and w[0] < f[0] and w[0] <= 16 or w and f and f[0] <= 8 and w[0] <= 8 and w != f: return Opq(("cast", w, v.tag))
                    return v
        v = Frame.eval(self, st, i)
        if isinstance(v, BV) and all(b is None for b in v.bits) or v is TOP or v is None: return self.term(st, i)
        return v
    def binop(self, op, a, b, nd, st, i):
        if isinstance(a, Opq) or isinstance(b, Opq):
            x, y = key(a), key(b); t = mk(op, x, y)
            if op in ("==", "!=") and x == y and not isinstance(x, int): return K(int(op == "=="), 1, 0)
            d = implied(st.lits, t)
            if d is not None: return K(int(d), 1, 0)
            return Opq(t) if not isinstance(t, int) else K(t)
        return Frame.binop(self, op, a, b, nd, st, i)
    def term(self, st, i):
        fn = self.fn; nd = fn.n(i); k = nd["k"]; c = nd.get("c", ())
        ver = sum(1 for e in st.trace if e[0] == "havoc")
        if k in ("ArraySubscriptExpr",):
            b, x = self.val(st, c[0]), self.val(st, c[1])
            return Opq(("load", mk("+", key(b), key(x)), ver))
        if k == "UnaryOperator" and nd["op"] == "*": return Opq(("load", key(self.val(st, c[0])), ver))
        if k == "UnaryOperator": return Opq((nd["op"], key(self.val(st, c[0]))))
        if k == "MemberExpr" and c: return Opq(("fld", key(self.val(st, c[0])), nd["n"], ver))
        if k in ("BinaryOperator", "CompoundAssignOperator"):
            a, b = self.val(st, c[0]), self.val(st, c[1]); op = nd["op"][:-1] if k == "CompoundAssignOperator" else nd["op"]
            t = mk(op, key(a), key(b))
            return Opq(t)
        if k == "CXXOperatorCallExpr" and nd.get("op") == "[]" and len(c) > 2: return Opq(("elem", key(self.lvo(st, c[1])), key(self.val(st, c[2])), ver))
        if k == "CXXOperatorCallExpr": return Opq(("opcall", nd.get("op"), tuple(key(self.val(st, x)) for x in c[1:]), ver))
        if k == "DeclRefExpr": return Opq(("ref", nd["n"]))
        if c and k in STRIP or k in CASTS and c: return self.val(st, c[0])
        return Opq(("node", k, nd.get("t", ""), fn.text(i)))
    def lvo(self, st, i):
        p = self.lval(st, i)
        return Opq(("at", p)) if p is not None else self.val(st, i)
    def lost(self, st, lhs):
        st.trace += (("store", key(self.term(st, self.fn.strip(lhs)))),)
        return TOP
    def store(self, st, lhs, v, t=None):
        p = self.lval(st, lhs)
        if p is None:
            st.trace += (("store", key(self.term(st, self.fn.strip(lhs))), key(v)),); return v
        w = self.E.wt(self.fn.n(lhs).get("t", "")) if "t" in self.fn.n(lhs) else None
        if w and isinstance(v, BV): v = conv(v, *w)
        for q in [q for q in st.mem if len(q) > len(p) and q[:len(p)] == p]: del st.mem[q]
        st.mem[p] = v
        return v
    def call(self, st, i):
        fn = self.fn; nd = fn.n(i); c = list(nd.get("c", ())); E = self.E; P = E.P; kk = (self.fr, i); fid = nd.get("fn"); args = c[1:]; obj = None
        if nd["k"] == "CXXOperatorCallExpr" and nd.get("op") == "[]": st.vals[kk] = self.term(st, i); return True
        callee = P.fns.get(fid)
        if nd.get("mem"):
            me = fn.n(fn.strip(c[0]))
            if me["k"] == "MemberExpr":
                if me.get("arrow"):
                    v = self.val(st, me["c"][0]); obj = self.elt(v) if isinstance(v, Ptr) else v
                else:
                    obj = self.lval(st, me["c"][0])
                    if obj is None: obj = self.val(st, me["c"][0])
        if E.hcall:
            r = E.hcall(self, st, i, fid, obj, args)
            if r is not None: st.vals[kk] = r; return True
        if nd.get("noret"): return None
        if callee is not None and callee.cfg and E.inline(callee) and (obj is None or isinstance(obj, tuple)):
            av = []
            for n, a in enumerate(args):
                v = self.arg(st, callee, n, a)
                av.append(v)
            return [s for s, v in [(s, s.vals.__setitem__(kk, v if v is not None else TOP)) for s, v in E.run(callee, st, av, obj, self.depth + 1)]] or None
        name = nd.get("n") or (fid or "?").split("(")[0].split("::")[-1]
        ver = sum(1 for e in st.trace if e[0] == "havoc")
        av = tuple(key(self.val(st, a)) for a in args if fn.k(a) != "CXXDefaultArgExpr")
        o = key(Opq(("at", obj))) if isinstance(obj, tuple) else key(obj) if obj is not None else None
        v = Opq(("call", name, o, av, ver)); st.vals[kk] = v
        pure = fid in E.const or nd.get("mem") and (callee is None or not callee.file.startswith(REPO)) and name in PURE or nd.get("cst") or not nd.get("mem")
        if not pure and isinstance(obj, tuple):
            # a call that may change the object: what is known about it is written down and forgotten
            known = tuple(sorted(((q, key(x)) for q, x in st.mem.items() if q[:len(obj)] == obj and key(x) != key(E.unknown(st, q))), key=repr))
            if known: st.trace += (("set", known),)
            st.trace += (("havoc", name, o, av),)
            for q in [q for q in st.mem if q[:len(obj)] == obj]: del st.mem[q]
        return True

def effects(E, st, skip=lambda q: False, this=("this",)):
    """member changes and the trace of a state"""
    m = {}
    for q, v in st.mem.items():
        if q[:len(this)] == this and not skip(q):
            k = key(v)
            if key(E.unknown(st, q)) != k: m[q[len(this):]] = k
    return m, tuple(e for e in st.trace)

def compatible(a, b):
    """literals of both paths can hold together"""
    for t, v in a.items():
        d = implied(b, t)
        if d is not None and d != v: return False
    for t, v in b.items():
        d = implied(a, t)
        if d is not None and d != v: return False
    return True

"""Disjunctive abstract evaluator over the CFG with bit-slice values.

A scalar is a BV: one entry per bit, which is 0, 1, a bit (name, add, i) -- bit i of input variable `name` plus the
constant `add` -- or None (anything), together with an interval and, when the value is exactly an input variable plus a
constant, that fact (sym). Branches on a comparison of such a value with a constant split the variable's interval, so
every state describes all inputs of a box; nothing is ever executed on particular inputs. Calls of known functions are
interpreted in place; loops are followed while their conditions are decided."""
from core import *
import copy

WIDTH = {"bool": (1, 0), "char": (8, 1), "signed char": (8, 1), "unsigned char": (8, 0), "short": (16, 1), "unsigned short": (16, 0), "int": (32, 1),
         "unsigned int": (32, 0), "long": (64, 1), "unsigned long": (64, 0), "long long": (64, 1), "unsigned long long": (64, 0), "wchar_t": (32, 1),
         "char16_t": (16, 0), "char32_t": (32, 0), "size_t": (64, 0), "uint8_t": (8, 0), "uint16_t": (16, 0), "uint32_t": (32, 0), "uint64_t": (64, 0)}

class Undecided(AnalysisError): pass

class Top:
    def __repr__(self): return "T"
    def __deepcopy__(self, m): return self
TOP = Top()
class Ptr:
    __slots__ = ("path", "off")
    def __init__(self, path, off=0): self.path = path; self.off = off
    def __repr__(self): return "&%s+%s" % (self.path, self.off)
    def __eq__(self, o): return isinstance(o, Ptr) and (o.path, o.off) == (self.path, self.off)
    def __hash__(self): return hash((self.path, self.off))
class Opq:
    """an uninterpreted value with an identity"""
    __slots__ = ("tag",)
    def __init__(self, tag): self.tag = tag
    def __repr__(self): return "<%s>" % (self.tag,)
    def __eq__(self, o): return isinstance(o, Opq) and o.tag == self.tag
    def __hash__(self): return hash(self.tag)

def typ(t):
    t = t.replace("const ", "").replace("volatile ", "").strip()
    if t.endswith(" const"): t = t[:-6]
    if t.endswith("&"): t = t[:-1].strip()
    return t

class BV:
    __slots__ = ("bits", "signed", "lo", "hi", "sym", "lin")
    def __init__(self, bits, signed, lo=None, hi=None, sym=None, lin=None):
        self.bits = tuple(bits); self.signed = signed; self.sym = sym; self.lin = lin
        w = len(self.bits)
        ones = 0; poss = 0
        for i, b in enumerate(self.bits):
            if b == 1 and b.__class__ is int: ones |= 1 << i
            if not (b == 0 and b.__class__ is int): poss |= 1 << i
        if signed and w > 1:
            m = 1 << (w - 1)
            s = self.bits[-1]
            if s == 0 and s.__class__ is int: l, h = ones, poss
            elif s == 1 and s.__class__ is int: l, h = ones - 2 * m, poss - 2 * m
            else: l, h = (ones & ~m) - m, poss & ~m
        else: l, h = ones, poss
        self.lo = l if lo is None else max(l, lo); self.hi = h if hi is None else min(h, hi)
    @property
    def w(self): return len(self.bits)
    def const(self):
        return self.lo if self.lo == self.hi else None
    def __repr__(self):
        c = self.const()
        if c is not None: return str(c)
        return "BV[%s %d..%d %s]" % ("".join("01"[b] if isinstance(b, int) else "?" if b is None else "b" for b in reversed(self.bits)), self.lo, self.hi, self.sym or "")
    def key(self): return (self.bits, self.signed, self.lo, self.hi, self.sym)
    def __eq__(self, o): return isinstance(o, BV) and self.key() == o.key()
    def __hash__(self): return hash(self.key())

def linear(v):
    """value as (const, {bit: coefficient}), None when not known"""
    if v.lin is not None: return v.lin
    if v.const() is not None: return (v.const(), {})
    k = 0; m = {}
    for i, b in enumerate(v.bits):
        w = -(1 << i) if v.signed and i == v.w - 1 and v.w > 1 else 1 << i
        if b.__class__ is int: k += b * w
        elif b is None: return None
        else: m[b] = m.get(b, 0) + w
    return (k, m)

def K(n, w=32, signed=1):
    n2 = n & ((1 << w) - 1)
    v = n2 - (1 << w) if signed and w > 1 and n2 >> (w - 1) else n2
    return BV([(n2 >> i) & 1 for i in range(w)], signed, v, v)

def var(name, add, lo, hi, w, signed):
    """the value of input variable name + add, known to lie in lo..hi"""
    bits = [(name, add & ((2 << i) - 1), i) for i in range(w)]
    if lo >= 0 or hi < 0:
        a, b = lo & ((1 << w) - 1), hi & ((1 << w) - 1)
        for i in range(w - 1, -1, -1):
            if (a >> i) == (b >> i): bits[i] = (a >> i) & 1
            else: break
    return BV(bits, signed, lo, hi, (name, add))

def conv(v, w, signed):
    if not isinstance(v, BV): return v
    if w == 1 and v.w > 1:   # to bool
        if v.lo > 0 or v.hi < 0: return K(1, 1, 0)
        if v.const() == 0: return K(0, 1, 0)
        if any(isinstance(b, int) and b for b in v.bits): return K(1, 1, 0)
        return BV([None], 0)
    if v.w == w and v.signed == signed: return v
    b = list(v.bits[:w])
    if len(b) < w: b += [v.bits[-1] if v.signed and v.w > 1 else 0] * (w - len(b))
    lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if signed and w > 1 else (0, (1 << w) - 1)
    if lo <= v.lo and v.hi <= hi:
        if v.lo >= 0:
            for i in range(w):
                if (v.hi >> i) == 0 and b[i] not in (0, 1): b[i] = 0
        return BV(b, signed, v.lo, v.hi, v.sym, v.lin)
    r = wrap(v.lo, v.hi, w, signed)
    if r is not None and w > 1:
        return BV(b, signed, r[0], r[1], (v.sym[0], v.sym[1] + r[0] - v.lo) if v.sym else None)
    return BV(b, signed)

def bnot(b): return None if not isinstance(b, int) else 1 - b
def bor(a, b):
    if a == 1 and isinstance(a, int) or b == 1 and isinstance(b, int): return 1
    if isinstance(a, int): return b
    if isinstance(b, int): return a
    return a if a == b and a is not None else None
def band(a, b):
    if a == 0 and isinstance(a, int) or b == 0 and isinstance(b, int): return 0
    if isinstance(a, int): return b
    if isinstance(b, int): return a
    return a if a == b and a is not None else None
def bxor(a, b):
    if isinstance(a, int) and isinstance(b, int): return a ^ b
    if a == 0 and isinstance(a, int): return b
    if b == 0 and isinstance(b, int): return a
    return None

def wrap(lo, hi, w, signed):
    L, H = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if signed and w > 1 else (0, (1 << w) - 1)
    if L <= lo and hi <= H: return lo, hi
    m = 1 << w
    k = (lo - L) // m
    if (hi - L) // m == k: return lo - k * m, hi - k * m
    return None

def add(a, b, sub=False):
    v = add_(a, b, sub)
    if v.const() is None and v.lin is None and None in v.bits:
        lo, hi = (a.lo - b.hi, a.hi - b.lo) if sub else (a.lo + b.lo, a.hi + b.hi)
        if wrap(lo, hi, a.w, a.signed) == (lo, hi):
            x, y = linear(a), linear(b)
            if x is not None and y is not None:
                m = dict(x[1]); g = -1 if sub else 1
                for k, c in y[1].items(): m[k] = m.get(k, 0) + g * c
                v.lin = (x[0] + g * y[0], m)
    return v

def add_(a, b, sub=False):
    w, s = a.w, a.signed
    lo, hi = (a.lo - b.hi, a.hi - b.lo) if sub else (a.lo + b.lo, a.hi + b.hi)
    r = wrap(lo, hi, w, s)
    kb = b.const(); ka = a.const()
    if r is not None and r == (lo, hi):
        if a.sym and kb is not None:
            return var(a.sym[0], a.sym[1] + (-kb if sub else kb), lo, hi, w, s) if (a.sym[1] + (-kb if sub else kb)) or True else a
        if b.sym and ka is not None and not sub: return var(b.sym[0], b.sym[1] + ka, lo, hi, w, s)
    if r and r[0] == r[1]: return K(r[0], w, s)
    if not sub:
        bits = []; c = 0
        for x, y in zip(a.bits, b.bits):
            if c == 0:
                if x == 0 and isinstance(x, int): bits.append(y)
                elif y == 0 and isinstance(y, int): bits.append(x)
                elif isinstance(x, int) and isinstance(y, int): bits.append(0); c = 1
                else: bits.append(None); c = None
            elif c == 1:
                if isinstance(x, int) and isinstance(y, int): t = x + y + 1; bits.append(t & 1); c = t >> 1
                else: bits.append(None); c = None
            else:
                bits.append(None)
                if x == 0 and y == 0 and isinstance(x, int) and isinstance(y, int): c = 0
                elif x == 1 and y == 1 and isinstance(x, int) and isinstance(y, int): c = 1
    else: 
        bits = [None] * w
        if kb is not None:
            # subtraction of bits that are set
            kk = kb & ((1 << w) - 1)
            if all(isinstance(a.bits[i], int) and a.bits[i] == 1 for i in range(w) if kk >> i & 1): bits = [0 if kk >> i & 1 else a.bits[i] for i in range(w)]
    if r is None: return BV(bits, s)
    if r[0] >= 0:
        for i in range(w):
            if r[1] >> i == 0: bits[i] = 0
    return BV(bits, s, r[0], r[1])

class State:
    __slots__ = ("mem", "vals", "truths", "rng", "facts", "trace")
    def __init__(self): self.mem = {}; self.vals = {}; self.truths = {}; self.rng = {}; self.facts = {}; self.trace = ()
    def copy(self):
        s = State(); s.mem = dict(self.mem); s.vals = dict(self.vals); s.truths = dict(self.truths); s.rng = dict(self.rng); s.facts = dict(self.facts); s.trace = self.trace
        return s

class Ev:
    def __init__(self, P, call=None, unknown=None, limit=200000, maxdepth=24):
        self.P = P; self.hcall = call; self.hunknown = unknown; self.limit = limit; self.steps = 0; self.frame = 0; self.maxdepth = maxdepth; self.fns = set(); self.undecided = None; self.nullread = None
    def wt(self, t):
        t = typ(t)
        if t in WIDTH: return WIDTH[t]
        e = self.P.enums.get(t)
        if e is not None:
            u = typ(e.get("ut", "unsigned int")); return WIDTH.get(u, (32, 0))
        return None
    # ---- variables
    def var(self, st, name, lo, hi, t):
        w, s = self.wt(t); st.rng[name] = (lo, hi); return var(name, 0, lo, hi, w, s)
    def refresh(self, st, v):
        if isinstance(v, BV):
            if v.sym and v.sym[0] in st.rng:
                lo, hi = st.rng[v.sym[0]]; a = v.sym[1]
                if (lo + a, hi + a) != (v.lo, v.hi): v = var(v.sym[0], a, max(lo + a, v.lo), min(hi + a, v.hi), v.w, v.signed)
            if any(b.__class__ is tuple for b in v.bits):
                nb = [self.bit(st, b) if b.__class__ is tuple else b for b in v.bits]
                if nb != list(v.bits): v = BV(nb, v.signed, v.lo, v.hi, v.sym, v.lin)
        return v
    def bit(self, st, b):
        """a bit of an input variable, constant when the variable's present interval (or a fact) fixes it"""
        if b in st.facts: return st.facts[b]
        r = st.rng.get(b[0])
        if r:
            x, y = (r[0] + b[1]) >> b[2], (r[1] + b[1]) >> b[2]
            if x == y: return x & 1
        return b
    def read(self, st, p, t=None):
        v = st.mem.get(p)
        if v is not None: return self.refresh(st, v)
        if len(p) >= 2 and p[0] == "str" and isinstance(p[2] if len(p) > 2 else None, int):
            s = p[1].encode("latin-1", "replace") if isinstance(p[1], str) else p[1]
            i = p[2]; return K((list(s) + [0])[i] if 0 <= i <= len(s) else 0, 8, 1)
        if isinstance(p[0], str) and (p[0].startswith("::") or p[0].startswith("static ")):
            g = self.glob(p[0])
            if g is not None and "val" in g:
                x = g["val"]
                for k in p[1:]:
                    if isinstance(x, list) and isinstance(k, int) and 0 <= k < len(x): x = x[k]
                    elif isinstance(x, list) and isinstance(k, int): return TOP
                    else: x = None; break
                if isinstance(x, str) and t and self.wt(t) and re.fullmatch(r"-?\d+", x): x = int(x)
                if isinstance(x, str) and t and typ(t).endswith("*"): return Ptr(("str", x), 0)
                if isinstance(x, int) and t is not None and self.wt(t): return K(x, *self.wt(t))
                if isinstance(x, (int,)): return K(x, 64, 1)
                if isinstance(x, list): return Ptr(p, 0)
        if self.hunknown:
            r = self.hunknown(self, st, p, t)
            if r is not None: st.mem[p] = r; return r
        return TOP
    def glob(self, r):
        if r.startswith("static "):
            fn, n = r[7:].rsplit(" ", 1); n = n.split(":", 1)[-1]
            return self.P.globals.get((n, fn))
        return self.P.globals.get((r[2:], None))
    # ---- execution
    def run(self, fn, st, args=(), this=None, depth=0):
        """-> list of (state, returned value)"""
        if depth > self.maxdepth: raise AnalysisError("call depth exceeded in " + fn.id)
        self.fns.add(fn.id)
        self.frame += 1; fr = self.frame
        A = Frame(self, fn, fr, this, depth)
        for n, p in enumerate(fn.params):
            if n >= len(args): break
            a = args[n]
            if isinstance(a, tuple): A.alias[p["d"]] = a       # reference binding
            else:
                w = self.wt(p["t"])
                st.mem[(fr, p["d"])] = conv(a, *w) if w and isinstance(a, BV) else a
        out = []; work = [(fn.entry, 0, st)]
        while work:
            b, k, s = work.pop()
            self.steps += 1
            if self.steps > self.limit: raise AnalysisError("analysis of %s does not end within %d steps" % (fn.id, self.limit))
            if b == fn.exit: out.append((s, s.vals.pop((fr, "ret"), None))); continue
            work.extend(A.block(b, k, s))
        for s, r in out:
            for d in [q for q in s.mem if q[0] == fr]: del s.mem[d]
            for d in [q for q in s.vals if q[0] == fr]: del s.vals[d]
            for d in [q for q in s.truths if q[0] == fr]: del s.truths[d]
        return out

class Frame:
    def __init__(self, E, fn, fr, this, depth):
        self.E = E; self.fn = fn; self.fr = fr; self.this = this; self.depth = depth; self.alias = {}
    def block(self, b, k, st):
        fn = self.fn; B = fn.cfg[b]; els = B["e"]
        while k < len(els):
            e = els[k]; k += 1
            if isinstance(e, dict):
                if "dtor" in e: continue
                self.ctor_init(st, e); continue
            r = self.elem(st, e)
            if r is None: return []           # path ends
            if r is not True:                 # several states
                out = []
                for s in r: out += self.block(b, k, s)
                return out
        if B.get("noret"): return []
        succ = B["s"]
        if B.get("tk") == "SwitchStmt": return self.switch(st, B, succ)
        if "cond" in B and len(succ) == 2:
            c = B.get("lc", B["cond"])
            out = []
            for t, s in self.split(st, c):
                s.truths[(self.fr, c)] = t; s.truths[(self.fr, fn.strip(c))] = t
                n = succ[0] if t else succ[1]
                if n is not None: out.append((n, 0, s))
            return out
        return [(s, 0, st if n == len(succ) - 1 else st.copy()) for n, s in enumerate(succ) if s is not None]
    def switch(self, st, B, succ):
        fn = self.fn; v = self.val(st, B["cond"]); out = []; deflt = None
        cases = []
        for s in succ:
            if s is None: continue
            lab = fn.cfg[s].get("label"); vals = self.labels(lab)
            if vals is None: deflt = s
            else: cases.append((s, vals))
        rest = [st]
        for s, vals in cases:
            for lo, hi in vals:
                nr = []
                for x in rest:
                    vv = self.E.refresh(x, v)
                    if not isinstance(vv, BV): out.append((s, 0, x.copy())); nr.append(x); continue
                    for t, y in self.inrange(x, vv, lo, hi):
                        if t: out.append((s, 0, y))
                        else: nr.append(y)
                rest = nr
        if deflt is None:
            # no default label: the last successor is what follows the switch
            deflt = succ[-1]
        for x in rest: out.append((deflt, 0, x))
        return out
    def labels(self, lab):
        """values of the case label of a block, None for default (or no label)"""
        fn = self.fn
        if lab is None or lab < 0 or fn.k(lab) != "CaseStmt": return None
        nd = fn.n(lab); lo = fn.cv(nd["lo"]); hi = fn.cv(nd["hi"]) if nd.get("hi", -1) >= 0 else lo
        if lo is None: raise AnalysisError("case label without a value at " + fn.at(lab))
        return [(lo, hi)]
    def inrange(self, st, v, lo, hi):
        out = []
        for t, s in self.cmp(st, v, ">=", lo):
            if not t: out.append((False, s)); continue
            for t2, s2 in self.cmp(s, self.E.refresh(s, v), "<=", hi): out.append((t2, s2))
        return out
    # ---- conditions
    def split(self, st, c):
        """list of (truth, state)"""
        fn = self.fn; i = fn.strip(c); nd = fn.n(i)
        t = st.truths.get((self.fr, i))
        if nd["k"] == "UnaryOperator" and nd["op"] == "!": return [(not t, s) for t, s in self.split(st, nd["c"][0])]
        if nd["k"] == "BinaryOperator" and nd["op"] in ("<", ">", "<=", ">=", "==", "!="):
            a, b = self.val(st, nd["c"][0]), self.val(st, nd["c"][1])
            if isinstance(a, BV) and isinstance(b, BV):
                if b.const() is not None: return self.cmp(st, a, nd["op"], b.const())
                if a.const() is not None: return self.cmp(st, b, {"<": ">", ">": "<", "<=": ">=", ">=": "<="}.get(nd["op"], nd["op"]), a.const())
                d = self.rel(a, nd["op"], b)
                if d is not None: return [(d, st)]
            elif isinstance(a, Ptr) or isinstance(b, Ptr):
                d = self.ptrcmp(a, nd["op"], b)
                if d is not None: return [(d, st)]
            elif isinstance(a, Opq) and isinstance(b, Opq) and a == b and nd["op"] in ("==", "!="): return [(nd["op"] == "==", st)]
            return self.both(st, i)
        if nd["k"] == "BinaryOperator" and nd["op"] in ("&&", "||"):
            v = self.val(st, i)
            if isinstance(v, BV) and v.const() is not None: return [(bool(v.const()), st)]
        v = self.val(st, i)
        if isinstance(v, BV): return self.cmp(st, v, "!=", 0)
        if isinstance(v, Ptr): return [(True, st)]
        return self.both(st, i)
    def both(self, st, i):
        self.E.undecided = (self.fn, i)
        if getattr(self.E, "strict", False): raise Undecided("undecided condition %s at %s" % (self.fn.text(i), self.fn.at(i)))
        return [(True, st), (False, st.copy())]
    def rel(self, a, op, b):
        if op == "==" : return True if a.lo == a.hi == b.lo == b.hi else False if a.hi < b.lo or b.hi < a.lo else None
        if op == "!=" :
            d = self.rel(a, "==", b); return None if d is None else not d
        if op == "<": return True if a.hi < b.lo else False if a.lo >= b.hi else None
        if op == ">": return self.rel(b, "<", a)
        if op == "<=": return True if a.hi <= b.lo else False if a.lo > b.hi else None
        return self.rel(b, "<=", a)
    def ptrcmp(self, a, op, b):
        if isinstance(a, Ptr) and isinstance(b, Ptr) and a.path == b.path and isinstance(a.off, int) and isinstance(b.off, int):
            return {"==": a.off == b.off, "!=": a.off != b.off, "<": a.off < b.off, ">": a.off > b.off, "<=": a.off <= b.off, ">=": a.off >= b.off}[op]
        for x, y in ((a, b), (b, a)):
            if isinstance(x, Ptr) and isinstance(y, BV) and y.const() == 0 and op in ("==", "!="): return op == "!="
        return None
    def cmp(self, st, v, op, k):
        """compare value with constant, splitting the interval of an input variable"""
        if op == "==":
            if v.lo == v.hi == k: return [(True, st)]
            if k < v.lo or k > v.hi: return [(False, st)]
            kb = k & ((1 << v.w) - 1)
            if any(isinstance(b, int) and b != (kb >> i) & 1 for i, b in enumerate(v.bits)): return [(False, st)]
            if v.sym:
                out = []
                n, a = v.sym; lo, hi = st.rng[n]
                if lo < k - a: s = st.copy(); s.rng[n] = (lo, k - a - 1); out.append((False, s))
                if hi > k - a: s = st.copy(); s.rng[n] = (k - a + 1, hi); out.append((False, s))
                st.rng[n] = (k - a, k - a); out.append((True, st)); return out
            s = st.copy(); free = [(i, b) for i, b in enumerate(v.bits) if not isinstance(b, int)]
            for i, b in free:
                if b is not None: s.facts[b] = (kb >> i) & 1
            if len(free) == 1 and free[0][1] is not None: st.facts[free[0][1]] = 1 - ((kb >> free[0][0]) & 1)
            return [(True, s), (False, st)]
        if op == "!=": return [(not t, s) for t, s in self.cmp(st, v, "==", k)]
        if op == "<=": return self.cmp(st, v, "<", k + 1)
        if op == ">": return [(not t, s) for t, s in self.cmp(st, v, "<", k + 1)]
        if op == ">=": return [(not t, s) for t, s in self.cmp(st, v, "<", k)]
        if v.hi < k: return [(True, st)]
        if v.lo >= k: return [(False, st)]
        if v.sym:
            n, a = v.sym; lo, hi = st.rng[n]
            s = st.copy(); s.rng[n] = (lo, k - a - 1); st.rng[n] = (k - a, hi)
            return [(True, s), (False, st)]
        return [(True, st.copy()), (False, st)]
    # ---- lvalues
    def lval(self, st, i):
        """memory path of an lvalue (or of the object), None when unknown"""
        fn = self.fn
        while True:
            nd = fn.n(i)
            if nd["k"] in ("ParenExpr", "ExprWithCleanups", "MaterializeTemporaryExpr", "CXXBindTemporaryExpr", "SubstNonTypeTemplateParmExpr", "ConstantExpr") or (nd["k"] in CASTS and nd.get("ck") in ("NoOp", "UncheckedDerivedToBase", "DerivedToBase")): i = nd["c"][0]
            else: break
        k = nd["k"]; c = nd.get("c", ())
        if k == "DeclRefExpr":
            d = nd["d"]
            if nd["dk"] in ("var", "parm"):
                if d in self.alias: return self.alias[d]
                al = st.vals.get((self.fr, "alias", d))
                if al is not None: return al
                return (self.fr, d)
            if nd["dk"] == "slocal": return ("static %s %s" % (fn.id, d),)
            if nd["dk"] == "global": return ("::" + d,)
            return None
        if k == "MemberExpr":
            if nd["dk"] == "global": return ("::" + nd["d"],)
            if nd["dk"] != "field": return None
            if nd.get("arrow"):
                v = self.val(st, c[0])
                if not isinstance(v, Ptr): return None
                b = self.elt(v)
                if b is None: return None
            else:
                b = self.lval(st, c[0])
                if b is None: return None
            return b + (nd["n"],)
        if k == "UnaryOperator" and nd["op"] == "*":
            v = self.val(st, c[0])
            return self.elt(v) if isinstance(v, Ptr) else None
        if k == "UnaryOperator" and nd["op"] in ("++", "--") and not nd.get("post"): return self.lval(st, c[0])
        if k in ("CompoundAssignOperator",) or (k == "BinaryOperator" and nd["op"] == "="): return self.lval(st, c[0])
        if k == "ArraySubscriptExpr":
            v, x = self.val(st, c[0]), self.val(st, c[1])
            if isinstance(x, Ptr): v, x = x, v
            if isinstance(v, BV) and v.const() == 0: self.E.nullread = fn.at(i)
            if isinstance(v, Ptr) and isinstance(x, BV) and x.const() is not None and isinstance(v.off, int): return self.elt(Ptr(v.path, v.off + x.const()))
            if isinstance(v, Ptr) and isinstance(x, BV) and x.sym and v.off == 0: return v.path + (("idx", x.sym),)
            return None
        if k == "CXXOperatorCallExpr":
            v = st.vals.get((self.fr, i))
            if isinstance(v, tuple): return v
            return None
        if k == "CallExpr" or k == "CXXMemberCallExpr":
            v = st.vals.get((self.fr, i))
            return v if isinstance(v, tuple) else None
        if k == "StringLiteral": return ("str", nd.get("v", ""))
        if k in ("CXXConstructExpr", "CXXTemporaryObjectExpr"):
            v = st.vals.get((self.fr, i))
            return v if isinstance(v, tuple) else None
        if k in CASTS and nd.get("ck") in ("ConstructorConversion",): return self.lval(st, c[0])
        if k == "CXXThisExpr": return None
        if k == "ConditionalOperator":
            t = st.truths.get((self.fr, fn.strip(c[0])))
            if t is not None: return self.lval(st, c[1] if t else c[2])
        return None
    def elt(self, v):
        if v.off == "obj": return v.path
        return v.path + (v.off,)
    # ---- values
    def val(self, st, i):
        if i is None or i < 0: return TOP
        nd = self.fn.n(i)
        if "cv" in nd and (isinstance(nd["cv"], int) or re.fullmatch(r"-?\d+", str(nd["cv"]))):
            w = self.E.wt(nd["t"]) if "t" in nd else None
            if w: return K(int(nd["cv"]), *w)
            if nd["cv"] == 0: return K(0, 64, 0)
        v = st.vals.get((self.fr, i))
        if v is not None:
            if isinstance(v, tuple): return self.E.read(st, v, nd.get("t"))
            return self.E.refresh(st, v)
        return self.eval(st, i)
    def eval(self, st, i):
        fn = self.fn; nd = fn.n(i); k = nd["k"]; c = nd.get("c", ()); E = self.E
        w = E.wt(nd["t"]) if "t" in nd else None
        if k in CASTS:
            ck = nd.get("ck")
            if ck == "LValueToRValue":
                p = self.lval(st, c[0])
                if p is not None: return E.read(st, p, nd["t"])
                return self.top(nd)
            if ck == "ArrayToPointerDecay":
                p = self.lval(st, c[0])
                return Ptr(p, 0) if p is not None else TOP
            if ck in ("NullToPointer",): return K(0, 64, 0)
            v = self.val(st, c[0])
            if w and isinstance(v, BV): return conv(v, *w)
            if ck == "PointerToBoolean" and isinstance(v, Ptr): return K(1, 1, 0)
            return v
        if k in STRIP and c: return self.val(st, c[0])
        if k in ("GNUNullExpr", "CXXNullPtrLiteralExpr", "ImplicitValueInitExpr", "CXXScalarValueInitExpr"): return K(0, *(w or (64, 0)))
        if k == "StringLiteral": return Ptr(("str", nd.get("v", "")), 0)
        if k == "CXXThisExpr": return Ptr(self.this, "obj") if self.this is not None else TOP
        if k in ("MemberExpr", "DeclRefExpr", "ArraySubscriptExpr") or (k == "UnaryOperator" and nd["op"] == "*"):
            if k == "DeclRefExpr" and nd.get("dk") == "func": return Opq(("fn", nd["d"]))
            p = self.lval(st, i)
            if p is not None: return E.read(st, p, nd.get("t"))
            return self.top(nd)
        if k == "UnaryOperator":
            op = nd["op"]
            if op == "&":
                p = self.lval(st, c[0])
                if p is None: return TOP
                if p and isinstance(p[-1], int) and len(p) > 1: return Ptr(p[:-1], p[-1])
                return Ptr(p, "obj")
            v = self.val(st, c[0])
            if op in ("++", "--"):
                return v
            if op == "!":
                if isinstance(v, Ptr): return K(0, 1, 0)
                t = st.truths.get((self.fr, fn.strip(c[0])))
                if t is not None: return K(int(not t), 1, 0)
                if isinstance(v, BV):
                    z = conv(v, 1, 0)
                    if z.const() is not None: return K(1 - z.const(), 1, 0)
                return BV([None], 0)
            if isinstance(v, BV):
                if op == "-": return add(K(0, v.w, v.signed), v, True)
                if op == "+": return v
                if op == "~":
                    return BV([bnot(b) for b in v.bits], v.signed) if v.const() is None else K(~v.const(), v.w, v.signed)
            return self.top(nd)
        if k in ("BinaryOperator", "CompoundAssignOperator"):
            op = nd["op"]
            if op == ",": return self.val(st, c[1])
            if op in ("&&", "||"):
                ts = []
                for x in c:
                    t = st.truths.get((self.fr, fn.strip(x)))
                    if t is None:
                        v = self.val(st, x)
                        if isinstance(v, BV): z = conv(v, 1, 0).const(); t = None if z is None else bool(z)
                        elif isinstance(v, Ptr): t = True
                    if t is (op == "||"): return K(int(t), 1, 0)
                    ts.append(t)
                if None not in ts: return K(int(op == "&&"), 1, 0)
                return BV([None], 0)
            a, b = self.val(st, c[0]), self.val(st, c[1])
            if k == "CompoundAssignOperator": op = op[:-1]
            return self.binop(op, a, b, nd, st, i)
        if k == "ConditionalOperator":
            t = st.truths.get((self.fr, fn.strip(c[0])))
            if t is None:
                v = self.val(st, c[0])
                if isinstance(v, BV): z = conv(v, 1, 0).const(); t = None if z is None else bool(z)
            if t is None: return self.top(nd)
            return self.val(st, c[1] if t else c[2])
        if k == "InitListExpr" and len(c) == 1: return self.val(st, c[0])
        if k in ("CXXConstructExpr", "CXXTemporaryObjectExpr") and nd.get("copy"): return self.val(st, c[0])
        return self.top(nd)
    def top(self, nd):
        w = self.E.wt(nd.get("t", "")) if "t" in nd else None
        return BV([None] * w[0], w[1]) if w else TOP
    def binop(self, op, a, b, nd, st, i):
        E = self.E; w = E.wt(nd.get("ct", nd.get("t", ""))) if "t" in nd else None
        if isinstance(a, Ptr) and isinstance(b, BV) and op in ("+", "-"):
            n = b.const()
            if n is not None and isinstance(a.off, int): return Ptr(a.path, a.off + n if op == "+" else a.off - n)
            return TOP
        if isinstance(b, Ptr) and isinstance(a, BV) and op == "+":
            n = a.const()
            if n is not None and isinstance(b.off, int): return Ptr(b.path, b.off + n)
            return TOP
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            if op == "-" and a.path == b.path and isinstance(a.off, int) and isinstance(b.off, int): return K(a.off - b.off, 64, 1)
            d = self.ptrcmp(a, op, b) if op in ("==", "!=", "<", ">", "<=", ">=") else None
            return K(int(d), 1, 0) if d is not None else self.top(nd)
        if op in ("==", "!=", "<", ">", "<=", ">="):
            if isinstance(a, BV) and isinstance(b, BV):
                d = self.rel(a, op, b)
                t = st.truths.get((self.fr, i))
                if d is None and t is not None: d = t
                if d is None and op in ("==", "!=") and (a.const() is not None or b.const() is not None):
                    x, kk = (a, b.const()) if b.const() is not None else (b, a.const())
                    kk &= (1 << x.w) - 1
                    if any(isinstance(y, int) and y != (kk >> n) & 1 for n, y in enumerate(x.bits)): d = op == "!="
                if d is not None: return K(int(d), 1, 0)
            elif isinstance(a, Ptr) or isinstance(b, Ptr):
                d = self.ptrcmp(a, op, b)
                if d is not None: return K(int(d), 1, 0)
            t = st.truths.get((self.fr, i))
            return K(int(t), 1, 0) if t is not None else BV([None], 0)
        if not isinstance(a, BV) or not isinstance(b, BV) or w is None: return self.top(nd)
        if op in ("<<", ">>"):
            n = b.const()
            if n is None or n < 0: return BV([None] * a.w, a.signed)
            if op == "<<":
                bits = ([0] * n + list(a.bits))[:a.w]
                r = wrap(a.lo << n, a.hi << n, a.w, a.signed)
                v = BV(bits, a.signed, *(r or (None, None)))
                if r == (a.lo << n, a.hi << n) and None in v.bits and a.lin is not None: v.lin = (a.lin[0] << n, {k: c << n for k, c in a.lin[1].items()})
                return v
            sb = a.bits[-1] if a.signed and a.w > 1 else 0
            bits = list(a.bits[n:]) + [sb] * min(n, a.w)
            return BV(bits, a.signed, a.lo >> n, a.hi >> n)
        a, b = conv(a, *w), conv(b, *w)
        if op == "|":
            v = BV([bor(x, y) for x, y in zip(a.bits, b.bits)], a.signed)
            if b.const() == 0: return a
            if a.const() == 0: return b
            pa, pb = (sum(1 << n for n, y in enumerate(x.bits) if not (y.__class__ is int and y == 0)) for x in (a, b))
            if not pa & pb and a.lo >= 0 and b.lo >= 0: return BV(v.bits, a.signed, a.lo + b.lo, a.hi + b.hi)
            return v
        if op == "&":
            if b.const() is not None and b.const() >= 0 and a.lo >= 0 and a.hi <= b.const() and (b.const() & (b.const() + 1)) == 0: return a
            m = b.const()
            if m is not None and m > 0 and (m & (m + 1)) == 0 and a.sym and a.lo // (m + 1) == a.hi // (m + 1):
                o = a.lo // (m + 1) * (m + 1)
                return BV([band(x, y) for x, y in zip(a.bits, b.bits)], a.signed, a.lo - o, a.hi - o, (a.sym[0], a.sym[1] - o))
            v = BV([band(x, y) for x, y in zip(a.bits, b.bits)], a.signed)
            if a.lo >= 0: v = BV(v.bits, v.signed, None, a.hi)
            return v
        if op == "^": return BV([bxor(x, y) for x, y in zip(a.bits, b.bits)], a.signed)
        if op in ("+", "-"): return add(a, b, op == "-")
        ka, kb = a.const(), b.const()
        if op == "*":
            if ka is not None and kb is not None: return K(ka * kb, *w)
            for x, n in ((a, kb), (b, ka)):
                if n is not None and n > 0 and (n & (n - 1)) == 0:
                    s = n.bit_length() - 1; r = wrap(x.lo * n, x.hi * n, x.w, x.signed)
                    return BV(([0] * s + list(x.bits))[:x.w], x.signed, *(r or (None, None)))
                if n is not None and n >= 0:
                    r = wrap(x.lo * n, x.hi * n, x.w, x.signed); return BV([None] * x.w, x.signed, *(r or (None, None)))
            return BV([None] * a.w, a.signed)
        if op in ("/", "%") and kb:
            if ka is not None:
                q = abs(ka) // abs(kb) * (1 if (ka < 0) == (kb < 0) else -1)
                return K(q if op == "/" else ka - q * kb, *w)
            if kb > 0 and (kb & (kb - 1)) == 0 and a.lo >= 0:
                s = kb.bit_length() - 1
                if op == "/": return BV(list(a.bits[s:]) + [0] * s, a.signed, a.lo >> s, a.hi >> s)
                return BV(list(a.bits[:s]) + [0] * (a.w - s), a.signed)
            if a.lo >= 0 and kb > 0:
                return BV([None] * a.w, a.signed, *( (a.lo // kb, a.hi // kb) if op == "/" else (0, min(a.hi, kb - 1))))
        return BV([None] * a.w, a.signed)
    # ---- effects
    def store(self, st, lhs, v, t=None):
        p = self.lval(st, lhs)
        w = self.E.wt(self.fn.n(lhs).get("t", "")) if "t" in self.fn.n(lhs) else None
        if w and isinstance(v, BV): v = conv(v, *w)
        if p is None:
            return self.lost(st, lhs)
        for q in [q for q in st.mem if len(q) > len(p) and q[:len(p)] == p]: del st.mem[q]
        st.mem[p] = v
        return v
    def lost(self, st, lhs):
        if getattr(self.E, "strict", False): raise AnalysisError("store to an unknown place at " + self.fn.at(lhs))
        return TOP
    def elem(self, st, i):
        fn = self.fn; nd = fn.n(i); k = nd["k"]; c = nd.get("c", ()); E = self.E; key = (self.fr, i)
        if k == "DeclStmt":
            for d in nd["decls"]:
                if d.get("static"): continue
                p = (self.fr, d["d"])
                for q in [q for q in st.mem if q[:2] == p]: del st.mem[q]
                if d["t"].endswith("&") and d["i"] >= 0:
                    q = self.lval(st, d["i"])
                    if q is not None: st.vals[(self.fr, "alias", d["d"])] = q
                    else: st.mem[p] = self.val(st, d["i"])
                    continue
                if d["i"] >= 0: self.init(st, p, d["i"], d["t"])
            return True
        if k == "BinaryOperator" and nd["op"] == "=":
            v = self.val(st, c[1]); v = self.store(st, c[0], v); st.vals[key] = v; return True
        if k == "CompoundAssignOperator":
            v = self.eval(st, i); v = self.store(st, c[0], v); st.vals[key] = v if v is not None else TOP; return True
        if k == "UnaryOperator" and nd["op"] in ("++", "--"):
            old = self.val(st, c[0])
            if old is TOP or isinstance(old, Opq): new = TOP
            elif isinstance(old, Ptr): new = Ptr(old.path, old.off + (1 if nd["op"] == "++" else -1)) if isinstance(old.off, int) else TOP
            else: new = add(old, K(1, old.w, old.signed), nd["op"] == "--")
            v = self.store(st, c[0], new); st.vals[key] = old if nd.get("post") else v; return True
        if k == "ReturnStmt":
            if nd["e"] >= 0:
                if fn.d.get("ret", "").endswith("&"):
                    p = self.lval(st, nd["e"]); st.vals[(self.fr, "ret")] = p if p is not None else self.val(st, nd["e"])
                else:
                    v = self.val(st, nd["e"]); w = E.wt(fn.d.get("ret", ""))
                    st.vals[(self.fr, "ret")] = conv(v, *w) if w and isinstance(v, BV) else v
            return True
        if k in ("CallExpr", "CXXMemberCallExpr", "CXXOperatorCallExpr"): return self.call(st, i)
        if k == "CXXThrowExpr": return None
        if k in ("CXXConstructExpr", "CXXTemporaryObjectExpr"):
            callee = E.P.fns.get(nd.get("fn"))
            if callee is not None and callee.cfg and not nd.get("elid"):
                p = (self.fr, "tmp", i)
                for q in [q for q in st.mem if q[:3] == p]: del st.mem[q]
                r = E.run(callee, st, [self.arg(st, callee, n, a) for n, a in enumerate(c)], p, self.depth + 1)
                out = []
                for s, v in r: s.vals[key] = p; out.append(s)
                return out
            return True
        if k == "InitListExpr": return True
        if k == "ImplicitCastExpr" and nd.get("ck") == "LValueToRValue": st.vals[key] = self.eval(st, i); return True
        if k in CASTS or k == "ParenExpr":
            if nd.get("lv") is None and c: st.vals[key] = self.eval(st, i)
            return True
        if k == "BinaryOperator" and nd["op"] in ("<", ">", "<=", ">=", "==", "!="):
            a, b = self.val(st, c[0]), self.val(st, c[1])
            if isinstance(a, BV) and isinstance(b, BV) and (a.const() is None) != (b.const() is None) and (a.sym or b.sym):
                out = []
                for t, s in self.split(st, i):
                    s.truths[(self.fr, i)] = t; s.vals[key] = K(int(t), 1, 0); out.append(s)
                return out if len(out) > 1 or out[0] is not st else True
        if k in ("BinaryOperator", "UnaryOperator", "ConditionalOperator"):
            if nd.get("lv") is None: st.vals[key] = self.eval(st, i)
            return True
        return True
    def init(self, st, p, e, t):
        fn = self.fn; i = e
        while fn.k(i) in ("ExprWithCleanups", "MaterializeTemporaryExpr", "CXXBindTemporaryExpr"): i = fn.c(i)[0]
        nd = fn.n(i)
        if nd["k"] == "InitListExpr" and ("[" in t):
            for n, j in enumerate(nd.get("c", ())): self.init(st, p + (n,), j, re.sub(r"\s*\[\d*\]", "", t, count=1))
            return
        if nd["k"] == "InitListExpr" and typ(t) in self.E.P.recs:
            for f, j in zip(self.E.P.recs[typ(t)]["fields"], nd.get("c", ())): self.init(st, p + (f["n"],), j, f["t"])
            return
        if nd["k"] == "StringLiteral" and "[" in t:
            for n, ch in enumerate(nd.get("v", "").encode("latin-1", "replace") + b"\0"): st.mem[p + (n,)] = K(ch, 8, 1)
            return
        v = self.val(st, e); w = self.E.wt(t)
        st.mem[p] = conv(v, *w) if w and isinstance(v, BV) else v
    def ctor_init(self, st, e):
        if "field" in e and self.this is not None:
            f = self.E.P.ren.get(e["field"], e["field"].split("::")[-1])
            self.init(st, self.this + (f,), e["init"], "")
        elif ("base" in e or "deleg" in e) and self.this is not None:
            i = self.fn.strip(e["init"]); nd = self.fn.n(i)
            callee = self.E.P.fns.get(nd.get("fn"))
            if callee is not None and callee.cfg:
                r = self.E.run(callee, st, [self.arg(st, callee, n, a) for n, a in enumerate(nd.get("c", ()))], self.this, self.depth + 1)
                if len(r) == 1 and r[0][0] is not st:
                    for a in st.__slots__: setattr(st, a, getattr(r[0][0], a))
    def arg(self, st, callee, n, a):
        t = callee.params[n]["t"] if n < len(callee.params) else ""
        if t.endswith("&"):
            p = self.lval(st, a)
            if p is not None: return p
        return self.val(st, a)
    def call(self, st, i):
        fn = self.fn; nd = fn.n(i); c = list(nd.get("c", ())); E = self.E; P = E.P; key = (self.fr, i)
        fid = nd.get("fn"); args = c[1:]; obj = None
        if nd.get("mem"):
            me = fn.n(fn.strip(c[0]))
            if me["k"] == "MemberExpr":
                if me.get("arrow"):
                    v = self.val(st, me["c"][0]); obj = self.elt(v) if isinstance(v, Ptr) else None
                else: obj = self.lval(st, me["c"][0])
        elif nd["k"] == "CXXOperatorCallExpr" and nd.get("cls") and not nd.get("stat") and args:
            obj = self.lval(st, args[0]); args = args[1:]
        if E.hcall:
            r = E.hcall(self, st, i, fid, obj, args)
            if r is not None:
                if isinstance(r, list):
                    for s, v in r:
                        if v is not None: s.vals[key] = v
                    return [s for s, v in r]
                st.vals[key] = r; return True
        if nd.get("noret"): return None
        callee = P.fns.get(fid)
        if callee is None or not callee.cfg:
            st.vals[key] = self.top(nd); 
            for n, a in enumerate(args): self.havoc(st, a, nd.get("pt", []), n)
            return True
        r = E.run(callee, st, [self.arg(st, callee, n, a) for n, a in enumerate(args)], obj, self.depth + 1)
        out = []
        for s, v in r:
            s.vals[key] = v if v is not None else TOP
            out.append(s)
        return out if out else None
    def havoc(self, st, a, pt, n):
        t = pt[n] if n < len(pt) else ""
        if (t.endswith("&") or t.endswith("*")) and not t.startswith("const "):
            p = self.lval(st, a)
            v = self.val(st, a)
            if isinstance(v, Ptr): p = v.path
            if p is not None:
                for q in [q for q in st.mem if q[:len(p)] == p]: del st.mem[q]
                st.mem[p] = TOP

"""Text cursors: a relational abstract interpretation of code that walks over terminated text.
State: a zone (differences of integer variables, cursors and text lengths), what is known of characters at cursors, which
character variables hold the character at which cursor, and prefixes known to match. States that agree in the discrete part
are joined. Functions are inlined when small, and summarised (entry facts joined over all call sites, exit relation between
entry and exit values of reference parameters) when large or recursive; all iterated to a fixpoint."""
from core import *
INF = None

class Zone:
    """x - y <= c; '' is zero"""
    __slots__ = ("o", "i", "bot", "_k")
    def __init__(self): self.o = {}; self.i = {}; self.bot = False; self._k = None
    def copy(self):
        z = Zone(); z.o = {k: dict(v) for k, v in self.o.items()}; z.i = {k: dict(v) for k, v in self.i.items()}; z.bot = self.bot
        return z
    def get(self, x, y):
        if x == y: return 0
        v = self.o.get(x)
        return v.get(y) if v is not None else None
    def put(self, x, y, c):
        self.o.setdefault(x, {})[y] = c; self.i.setdefault(y, {})[x] = c
    def add(self, x, y, c):
        self._k = None
        if x == y:
            if c < 0: self.bot = True
            return not self.bot
        old = self.get(x, y)
        if old is not None and old <= c: return not self.bot
        r = self.get(y, x)
        if r is not None and r + c < 0: self.bot = True; return False
        ins = [(x, 0)] + list(self.i.get(x, {}).items()); outs = [(y, 0)] + list(self.o.get(y, {}).items())
        for a, p in ins:
            for b, q in outs:
                if a == b: continue
                n = p + c + q; o = self.get(a, b)
                if o is None or n < o: self.put(a, b, n)
        return True
    def forget(self, x):
        self._k = None
        for y in self.o.pop(x, {}): self.i[y].pop(x, None)
        for y in self.i.pop(x, {}): self.o[y].pop(x, None)
    def shift(self, x, d):
        """x := x + d"""
        self._k = None
        for y in list(self.o.get(x, {})): self.o[x][y] += d; self.i[y][x] += d
        for y in list(self.i.get(x, {})): self.i[x][y] -= d; self.o[y][x] -= d
    def vars(self): return set(self.o) | set(self.i)
    def eqs(self, x):
        """(y, c) with x == y + c"""
        for y, c in self.o.get(x, {}).items():
            r = self.get(y, x)
            if r is not None and r == -c: yield y, c
    def const(self, x):
        a, b = self.get(x, ""), self.get("", x)
        return a if a is not None and b is not None and a == -b else None
    def join(self, z, widen=False):
        r = Zone()
        for x, m in self.o.items():
            w = z.o.get(x)
            if not w: continue
            for y, c in m.items():
                d = w.get(y)
                if d is None: continue
                if d > c:
                    if widen and (widen > 1 or d > 4): continue
                    c = d
                r.put(x, y, c)
        return r
    def leq(self, z):
        """self implies z"""
        for x, m in z.o.items():
            w = self.o.get(x)
            for y, c in m.items():
                if w is None or y not in w or w[y] > c: return False
        return True
    def rename(self, f):
        r = Zone(); r.bot = self.bot
        for x, m in self.o.items():
            for y, c in m.items():
                a, b = f(x), f(y)
                if a is not None and b is not None and a != b:
                    o = r.get(a, b)
                    if o is None or c < o: r.put(a, b, c)
        return r

class S:
    __slots__ = ("z", "K", "V", "L", "M", "T", "vals", "ev")
    def __init__(self): self.z = Zone(); self.K = {}; self.V = {}; self.L = {}; self.M = frozenset(); self.T = {}; self.vals = {}; self.ev = frozenset()
    def copy(self):
        s = S(); s.z = self.z.copy(); s.K = dict(self.K); s.V = dict(self.V); s.L = dict(self.L); s.M = self.M; s.T = dict(self.T); s.vals = dict(self.vals); s.ev = self.ev
        return s
    def key(self):
        return (frozenset(self.K.items()), frozenset(self.V.items()), frozenset(self.L.items()), self.M, frozenset(self.T.items()), frozenset(self.vals.items()), self.ev)

KMIN, KMAX = 0, 8
NEG = {"==": "!=", "!=": "==", "<": ">=", ">=": "<", ">": "<=", "<=": ">"}
NPOS = 2**64 - 1
ISX = {"isalnum", "isalpha", "isdigit", "isxdigit", "islower", "isupper", "isspace", "ispunct", "isgraph", "isprint", "isblank"}
UNS = re.compile(r"^(unsigned|size_t|uint\d+_t|std::size_t)")
INTT = re.compile(r"^(unsigned |signed )?(char|short|int|long|long long|bool|wchar_t|unsigned|size_t|u?int\d+_t)( int)?$|^unsigned$")

def cvn(nd):
    v = nd["cv"]
    return v + 2 ** 64 if v < 0 and nd.get("t", "").replace("const ", "") in ("unsigned long", "size_t", "std::size_t") else v
def I(v, c=0): return ("i", v, c)

class Cur:
    """H: object with inline(fn) -> bool, scope(fn) -> bool, read(...), span(...), etc."""
    def __init__(self, P, H):
        self.P = P; self.H = H; self.entry = {}; self.exits = {}; self.nodes = 0; self.final = False; self.cnt = 0; self.dirty = set(); self.callers = {}; self.stack = []; self.cap = 36; self.over = 2; self.maxexits = 5; self.visited = set(); self.retptr = {}; self.origin = {}
    # ---------- texts
    def textof(self, F, st, v):
        """(text, var, off) of a pointer value"""
        return v[1:] if v is not None and v[0] == "ptr" else None
    # ---------- driver
    def solve(self, roots):
        work = []
        for f in roots:
            self.entry[f.id] = self.root_entry(f); work.append(f.id)
        rounds = {}
        self.dirty = set(work)
        while self.dirty:
            fid = min(self.dirty, key=lambda x: rounds.get(x, 0)); self.dirty.discard(fid)
            rounds[fid] = rounds.get(fid, 0) + 1
            if rounds[fid] > 60: raise AnalysisError("no fixpoint for " + fid)
            t0 = time.time(); self.run(fid, rounds[fid])
            if getattr(self, "trace", 0): print("run", self.P.fns[fid].name, rounds[fid], "%.1f" % (time.time() - t0), self.nodes, flush=True)
        self.final = True
        for fid in list(self.entry): self.run(fid, 0)
    def root_entry(self, f):
        st = S()
        for p in f.params: self.param_default(st, p["d"], p["t"])
        return st.z
    def param_default(self, st, d, t):
        u = t.replace("const ", "").replace("&", "").strip()
        if UNS.match(u): st.z.add("", d, 0)
    def run(self, fid, rnd):
        f = self.P.fns[fid]; F = Fr(self, f, {}, "")
        st = S(); st.z = self.entry[fid].copy()
        for p in f.params:
            t = p["t"]
            if t == "const char *":
                text = "#" + p["d"]; st.T[p["d"]] = text; st.z.add("", text, 0)
                if st.z.get(p["d"], "") is None or True: st.z.add(p["d"], "", 0); st.z.add("", p["d"], 0)
            elif t.endswith("&") and not t.startswith("const ") and INTT.match(t[:-1].strip()):
                g = "^" + p["d"]; st.z.add(g, p["d"], 0); st.z.add(p["d"], g, 0)
        self.stack.append(fid)
        outs = F.fix([st])
        self.stack.pop()
        # exit relation
        keep = {p["d"] for p in f.params if p["t"].endswith("&")}
        ex = {}
        for s, rv in outs:
            z = s.z.copy()
            if rv is not None and rv[0] == "ptr" and rv[1].startswith("#"): self.retptr[fid] = rv[1][1:]; z.add("@ret", rv[2], rv[3]); z.add(rv[2], "@ret", -rv[3])
            if rv is not None and rv[0] == "i": z.add("@ret", rv[1], rv[2]); z.add(rv[1], "@ret", -rv[2])
            z = z.rename(lambda x: x if x in keep or x.startswith(("^", "#")) or x in ("", "@ret") else None)
            k = frozenset((t, n) for t, n in s.K.items() if t[1] in keep and t[0][0] == "#" and t[2] == 0)
            ex[k] = z if k not in ex else ex[k].join(z)
        if not self.final and ex:
            # exits are told apart by the characters known where reference parameters point
            old = self.exits.get(fid); full = set(ex) | set(old or {})
            if len(full) > self.maxexits or (old is not None and list(old) == [frozenset()] and rnd > 3):
                def flat(d):
                    z = None
                    for q in (d or {}).values(): z = q if z is None else z.join(q)
                    return {frozenset(): z} if z is not None else None
                ex = flat(ex); old = flat(old)
            if old is not None:
                for k, z in old.items(): ex[k] = z if k not in ex else z.join(ex[k], widen=rnd > 4)
            if old is None or set(old) != set(ex) or any(not ex[k].leq(old[k]) or not old[k].leq(ex[k]) for k in ex) or self.exits.get(fid) is None or set(self.exits[fid]) != set(ex):
                self.exits[fid] = ex
                self.dirty |= self.callers.get(fid, set())
    def call_summary(self, fid, z, caller):
        """join z (over the callee's names) into the callee's entry"""
        if self.final: return
        self.callers.setdefault(fid, set()).add(caller)
        old = self.entry.get(fid)
        new = z if old is None else old.join(z)
        if old is None or not new.leq(old):
            self.cnt_e = getattr(self, "cnt_e", {}); self.cnt_e[fid] = self.cnt_e.get(fid, 0) + 1
            if old is not None and self.cnt_e[fid] > 4: new = old.join(z, widen=True)
            self.entry[fid] = new; self.dirty.add(fid)

def inuse(st):
    u = set()
    def go(v):
        if isinstance(v, tuple):
            for x in v: go(x)
        elif isinstance(v, str): u.add(v)
    for v in st.vals.values(): go(v)
    for (t, w, o) in st.K: u.add(w)
    for (t, w, o) in st.L.values(): u.add(w)
    return u

class Fr:
    def __init__(self, C, fn, env, fr):
        self.C = C; self.fn = fn; self.env = env; self.fr = fr
        self.live = liveness(fn); self.cross = crossvals(fn); self.boolvars = textbools(fn)
    # ---------- naming
    def var(self, i):
        """name of the variable an lvalue denotes, or None"""
        p = self.fn.path(i)
        if p is None: return None
        if p[0] in self.env:
            e = self.env[p[0]]
            if e is None: return None
            if len(p) == 1: return e
            return ".".join((e,) + p[1:])
        if p[0] == "this" or p[0].startswith("::"): return ".".join(p)
        return ".".join((self.fr + p[0],) + p[1:])
    # ---------- fixpoint over the flow graph
    def fix(self, init):
        fn = self.fn; inn = {}; self.jc = {}; order = rpo(fn); heads = set(loops(fn)); cnt = {}
        work = {fn.entry}; self.push(inn, fn.entry, init, set())
        exits = []
        while work:
            b = min(work, key=lambda x: order.get(x, 1 << 30)); work.discard(b)
            cnt[b] = cnt.get(b, 0) + 1
            if cnt[b] > 200: raise AnalysisError("no fixpoint in " + fn.id)
            if b == fn.exit: continue
            for s in list(inn[b].values()):
                if s[1]: continue
                inn[b][s[2]] = (s[0], True, s[2])
                for nb, ns in self.block(b, s[0].copy()):
                    if self.push(inn, nb, [ns], heads, cnt): work.add(nb)
        out = []
        for s in inn.get(fn.exit, {}).values():
            st = s[0].copy(); rv = st.vals.pop(("ret", self.fr), None); out.append((st, rv))
        return out
    def push(self, inn, b, sts, heads, cnt=None):
        ch = False; d = inn.setdefault(b, {})
        for st in sts:
            self.prune(b, st)
            if b in heads: self.forget_fixed(b, st)
            k = st.key()
            ov = self.C.over == 2 or (self.C.over and b in heads)
            if ov: k = (k, self.over(st))
            o = d.get(k)
            if o is None:
                if len(d) >= self.C.cap:
                    st = st.copy(); st.K = {}; st.M = frozenset(); st.V = {}; st.L = {x: y for x, y in st.L.items()} if len(d) < 2 * self.C.cap else {}
                    if len(d) >= 3 * self.C.cap: st.vals = {x: y for x, y in st.vals.items() if x[0] == "ret"}
                    k = st.key()
                    if ov: k = (k, self.over(st))
                    o = d.get(k)
            if o is None: d[k] = (st, False, k); ch = True
            elif not st.z.leq(o[0].z):
                jc = self.jc; n = jc[(b, k)] = jc.get((b, k), 0) + 1
                z = o[0].z.join(st.z, widen=2 if n > 40 or (b in heads and n > 16) else 1 if b in heads and n > 2 else 0)
                s2 = o[0].copy(); s2.z = z; d[k] = (s2, False, k); ch = True
        return ch
    def forget_fixed(self, b, st):
        """at the head of a loop: characters known at cursors that the loop does not move, literals a pointer may stand for"""
        ch = changed(self.fn, b); n = len(self.fr)
        for k in [k for k in st.K if k[1].startswith(self.fr) and not k[1][n:].startswith("@") and k[1][n:].split(".")[0].split("[")[0] not in ch and k[1] not in self.env.values() and not k[1].startswith("this")]: del st.K[k]
        for k in [k for k, v in st.vals.items() if k[0] == "al" and v is not None and v[0] == "o" and v[1][0].startswith('"')]: del st.vals[k]
    def over(self, st):
        """cursors that are at the end or behind it: such states are kept apart"""
        z = st.z
        return frozenset(x for y, m in z.o.items() if y and y[0] == "#" for x, c in m.items() if c <= 0 and x != "" and x[0] not in "#^@" and z.const(x) is None)
    def prune(self, b, st):
        """forget what is dead at the start of block b"""
        live = self.live[b]; n = len(self.fr); fn = self.fn
        for k in [k for k in st.vals if (k[0] == self.fr and k[1] not in self.cross.get(b, ())) or (k[0] in ("diff", "al", "np") and (st.vals[k] is None or k[1].startswith(self.fr) and k[1][n:] in fn_locals(fn) and k[1][n:] not in live))]: del st.vals[k]
        used = set()
        def coll(v):
            for y in v:
                if y.__class__ is str: used.add(y)
                elif y.__class__ is tuple: coll(y)
        for v in st.vals.values():
            if v is not None: coll(v[1:])
        def dead(x):
            if x in ("",) or x[0] in "#^" or x in used: return False
            r = x.split(".")[0]
            if r == "this" or r.startswith("::"): return False
            if not r.startswith(self.fr): return False
            r = r[n:].split("[")[0]
            if r.startswith("@"): return self.fr == "" or not r.startswith("@f")
            return r in fn_locals(fn) and r not in live
        for g in {k[1] for k in st.K if k[1].startswith("@g")}:
            x = g[2:]; c = st.z.get(g, x)
            if (x.startswith(self.fr) and x[n:] in fn_locals(fn) and x[n:] not in live) or (c is not None and c < 0) or st.z.get(x, g) is None: st.K = {k: m for k, m in st.K.items() if k[1] != g}; st.z.forget(g)
            else: used.add(g)
        for x in [x for x in st.z.vars() if dead(x)]: st.z.forget(x)
        for x in [x for x in st.V if dead(x)]: del st.V[x]
        for x in [x for x in st.L if dead(x)]: del st.L[x]
        for x in [x for x in st.T if dead(x)]: del st.T[x]
        for x in [x for x in st.K if dead(x[1]) or not KMIN <= x[2] <= KMAX]: del st.K[x]
        for x in [x for x, l in st.L.items() if dead(l[1]) or not -1 <= l[2] <= KMAX]: del st.L[x]
        if any(dead(m[1]) for m in st.M): st.M = frozenset(m for m in st.M if not dead(m[1]))
    def block(self, b, st):
        fn = self.fn; B = fn.cfg[b]; sts = [st]; C = self.C; C.nodes += 1
        C.visited.add((fn.id, b))
        for e in B["e"]:
            nxt = []
            for s in sts:
                if isinstance(e, dict): nxt.append(s); continue
                nxt += self.elem(s, e)
            sts = nxt
            if not sts: return
        if B.get("noret"): return
        succ = B["s"]
        for s in sts:
            if B.get("tk") == "SwitchStmt":
                v = self.val(s, B["cond"]); cases = []
                for x in succ:
                    if x is None: continue
                    lab = fn.cfg[x].get("label")
                    if lab is not None and lab >= 0 and fn.k(lab) == "CaseStmt": cases.append((x, fn.cv(fn.n(lab)["lo"]), fn.n(lab).get("hi", -1)))
                dflt = s
                for x, c, hi in cases:
                    if c is None or hi >= 0: yield x, s.copy(); continue
                    for n in self.assume(s.copy(), ("cmp", "==", v, I("", c)), True): yield x, n
                for x in succ:
                    if x is None or any(x == y[0] for y in cases): continue
                    ds = [s.copy()]
                    for y, c, hi in cases:
                        if c is not None and hi < 0: ds = [n for q in ds for n in self.assume(q, ("cmp", "==", v, I("", c)), False)]
                    for q in ds: yield x, q
                continue
            if "cond" in B and len(succ) == 2:
                c = B.get("lc", B["cond"]); v = self.val(s, c); T = fn.nodes[B["term"]] if "term" in B else {}
                for t, x in ((True, succ[0]), (False, succ[1])):
                    if x is None: continue
                    for n in self.assume(s.copy(), v, t):
                        ci = fn.strip(c)
                        n.vals[(self.fr, c)] = n.vals[(self.fr, ci)] = I("", 1 if t else 0)
                        yield x, n
                continue
            for x in succ:
                if x is not None: yield x, s.copy()
    # ---------- knowledge of characters
    def chconst(self, st, v):
        _, text, var, off = v
        k = st.K.get((text, var, off))
        if k is not None: return k
        g = st.z.get(text, var)
        if g is not None and g <= off: return 0 if st.z.get(var, text) is not None and st.z.get(var, text) <= -off else None
        return None
    def nonzero(self, st, v):
        if self.chconst(st, v) == 0: return []
        _, text, var, off = v
        return [st] if st.z.add(var, text, -(off + 1)) else []
    def isconst(self, st, v, n):
        c = self.chconst(st, v)
        if c is not None and c != n: return []
        _, text, var, off = v
        if n == 0:
            # in the text proper (an embedded zero) or at its end
            st.K[(text, var, off)] = 0
            return [st]
        if not st.z.add(var, text, -(off + 1)): return []
        st.K[(text, var, off)] = n
        return [st]
    def assume(self, st, v, t):
        if v is None: return [st]
        k = v[0]
        if k == "i":
            c = v[2] if v[1] == "" else st.z.const(v[1])
            if c is not None:
                if v[1] != "": c += v[2]
                return [st] if bool(c) == t else []
            return self.assume(st, ("cmp", "!=", v, I("", 0)), t)
        if k == "not": return self.assume(st, v[1], not t)
        if k == "ch": return self.nonzero(st, v) if t else self.isconst(st, v, 0)
        if k == "cv":        # a character variable
            return self.assume(st, ("cmp", "!=", v, I("", 0)), t)
        if k == "isx":
            if t: return self.nz(st, v[1])
            return [st]
        if k == "str":       # a pointer from strchr: true when the character was found (the terminator included)
            if not t: return self.nz(st, v[1])
            return [st]
        if k == "match": return [st]
        if k == "ptr": return [st] if t else []
        if k == "cmp":
            _, op, a, b = v
            if a is None or b is None: return [st]
            if not t: op = NEG[op]
            return self.compare(st, op, a, b)
        return [st]
    def nz(self, st, v):
        """character value v is not zero"""
        if v is None: return [st]
        if v[0] == "ch": return self.nonzero(st, v)
        if v[0] == "cv": return self.compare(st, "!=", v, I("", 0))
        if v[0] == "m": return self.nz(st, v[1])
        return [st]
    def compare(self, st, op, a, b):
        if a[0] == "i" and b[0] in ("ch", "cv", "m", "str", "match", "isx", "cmp", "not", "L", "d") and b[0] != "d": return self.compare(st, {"<": ">", ">": "<", "<=": ">=", ">=": "<="}.get(op, op), b, a)
        ka, kb = a[0], b[0]
        if ka in ("cmp", "not", "isx") and kb == "i" and b[1] == "" and op in ("==", "!="):
            if b[2] in (0, 1): return self.assume(st, a, (op == "==") == (b[2] == 1))
            return [st]
        if ka == "str":
            if kb == "i" and b[1] == "" and b[2] == 0: return self.assume(st, a, op != "==")
            return [st]
        if ka == "match":
            if kb == "i" and b[1] == "" and b[2] == 0 and op == "==":
                _, text, var, off, n = a
                if isinstance(n, int): return [st] if st.z.add(var, text, -(off + n)) else []
                st.M = st.M | {(text, var, off, n)}
            return [st]
        if ka == "m":
            if kb == "i" and b[1] == "" and ((op == "==" and b[2] != 0) or (op == "!=" and b[2] == 0)): return self.nz(st, a[1])
            return [st]
        if ka == "ptr" and kb == "i" and b[1] == "" and b[2] == 0: return [st] if op == "!=" else []
        if ka == "ptr" and kb == "ptr" and a[1] == b[1]: return self.compare(st, op, I(a[2], a[3]), I(b[2], b[3]))
        if ka in ("ch", "cv"):
            c = self.chconst(st, a) if ka == "ch" else st.V.get(a[1])
            lk = st.L.get(a[1]) if ka == "cv" else None
            lv = ("ch",) + lk if lk is not None else None
            if ka == "cv" and c in (None, "nz") and lv is not None and self.chconst(st, lv) is not None: c = self.chconst(st, lv)
            if kb in ("ch", "cv"):
                d = self.chconst(st, b) if kb == "ch" else st.V.get(b[1])
                if isinstance(c, int) and not isinstance(d, int): return self.compare(st, op, b, I("", c))
                if not isinstance(d, int): return [st]
                n = d
            elif kb == "i":
                n = b[2] if b[1] == "" else st.z.const(b[1])
                if n is not None and b[1] != "": n += b[2]
                if n is None:
                    if op == "==" and b[1] in self.C.H.nonzero_vars: return self.nz(st, a)
                    return [st]
            else: return [st]
            if isinstance(c, int):
                r = {"==": c == n, "!=": c != n, "<": c < n, "<=": c <= n, ">": c > n, ">=": c >= n}[op]
                return [st] if r else []
            if c == "nz" and n == 0 and op == "==": return []
            isnz = (op == "==" and n != 0) or (op == "!=" and n == 0) or (op == ">" and n >= 0) or (op == ">=" and n >= 1) or (op == "<" and n <= 0) or (op == "<=" and n < 0)
            if op == "==":
                if ka == "cv": st.V[a[1]] = n
                tgt = a if ka == "ch" else lv
                if tgt is not None and not self.apart(st, tgt[1:], n, True): return []
                return self.isconst(st, tgt, n) if tgt is not None else [st]
            if op == "!=":
                tgt = a if ka == "ch" else lv
                if tgt is not None and not self.apart(st, tgt[1:], n, False): return []
            if isnz:
                if ka == "cv" and c is None: st.V[a[1]] = "nz"
                tgt = a if ka == "ch" else lv
                return self.nonzero(st, tgt) if tgt is not None else [st]
            return [st]
        if ka == "i" and kb == "i":
            x, c = a[1], a[2]; y, d = b[1], b[2]
            # x + c op y + d
            if op == "<": return [st] if st.z.add(x, y, d - c - 1) else []
            if op == "<=": return [st] if st.z.add(x, y, d - c) else []
            if op == ">": return [st] if st.z.add(y, x, c - d - 1) else []
            if op == ">=": return [st] if st.z.add(y, x, c - d) else []
            if op == "==": return [st] if st.z.add(x, y, d - c) and st.z.add(y, x, c - d) else []
            if op == "!=":
                if x == y and c == d: return []
                p, q = st.z.get(x, y), st.z.get(y, x)
                if p is not None and q is not None and p == d - c and q == c - d: return []
                if p is not None and p == d - c: return [st] if st.z.add(x, y, d - c - 1) else []
                if q is not None and q == c - d: return [st] if st.z.add(y, x, c - d - 1) else []
                return [st]
        if ka == "d" and kb == "i" and b[1] == "":
            # x - y + c op n
            return self.compare(st, op, I(a[1], a[3]), I(a[2], b[2]))
        if kb == "d" and ka == "i" and a[1] == "":
            return self.compare(st, op, I(b[2], a[2]), I(b[1], b[3]))
        return [st]
    # ---------- assignment of integers and pointers
    def setvar(self, st, x, v):
        """x := v"""
        z = st.z
        if v is not None and v[0] in ("i", "ptr"):
            y, c = (v[1], v[2]) if v[0] == "i" else (v[2], v[3])
            if v[0] == "ptr": st.T[x] = v[1]
            else: st.T.pop(x, None)
            if y == x:
                if c:
                    z.shift(x, c)
                    st.K = {((t, w, o - c) if w == x else (t, w, o)): n for (t, w, o), n in st.K.items()}
                    st.L = {q: ((t, w, o - c) if w == x else (t, w, o)) for q, (t, w, o) in st.L.items()}
                    st.M = frozenset((t, w, o - c, n) if w == x else (t, w, o, n) for t, w, o, n in st.M)
                    self.fixvals(st, x, c)
                self.dep(st, x)
                return
            kn = [(t, o - c, n) for (t, w, o), n in st.K.items() if w == y]
            if y == "" and x[0] not in "@#^": self.anchor(st, x, c)
            mn = [(t, o - c, n) for t, w, o, n in st.M if w == y]
            self.detach(st, x); z.forget(x)
            z.add(x, y, c); z.add(y, x, -c)
            for t, o, n in kn: st.K[(t, x, o)] = n
            st.M = st.M | frozenset((t, x, o, n) for t, o, n in mn)
            for q, (t, w, o) in list(st.L.items()): pass
        elif v is not None and v[0] == "add":      # x := y + (unknown amount >= n)
            y, n = v[1], v[2]
            low = [(w, c) for w, c in z.i.get(y, {}).items()] if False else [(w, c) for w, c in z.i.get(y, {}).items()]
            self.detach(st, x)
            if y != x: z.forget(x); 
            else:
                # keep only lower bounds
                lows = [(w, z.get(w, x)) for w in z.i.get(x, {})]
                z.forget(x)
                for w, c in lows:
                    if w != x: z.add(w, x, c - n)
                return self.dep(st, x)
            z.add(y, x, -n)
        else:
            self.detach(st, x); z.forget(x)
            if x in st.T: st.T[x] = "?"
        self.dep(st, x)
        st.V.pop(x, None); st.L.pop(x, None)
    def anchor(self, st, x, c):
        """a cursor goes back to the front: the character known where it was stays known, for the walk that follows"""
        if any(y != "" and y[0] not in "#^" and st.z.const(y) is None for y, _ in st.z.eqs(x)): return
        h = st.z.get("", x); g = "@g" + x
        ks = [(t, o, n) for (t, w, o), n in st.K.items() if w == x and n != 0]
        if not ks or h is None or h > -c: return
        st.z.forget(g); st.K = {k: n for k, n in st.K.items() if k[1] != g}
        st.z.add(g, x, 0); st.z.add(x, g, 0)
        for t, o, n in ks: st.K[(t, g, o)] = n
    def apart(self, st, t, n, eq):
        """the character at t is n (or is not n): t is not an anchor whose character is another (or n)"""
        for (tx, w, o), m in list(st.K.items()):
            if tx == t[0] and w.startswith("@g") and (m != n if eq else m == n):
                if self.compare(st, "!=", I(t[1], t[2]), I(w, o)) == []: return False
        return True
    def dep(self, st, x):
        """texts known by an expression that mentions x are no longer known"""
        st.vals.pop(("diff", x), None); st.vals.pop(("np", x), None)
        for k in [k for k, v in st.vals.items() if k[0] == "al" and v is not None and v[0] == "o" and x in v[1][1]]: del st.vals[k]
        if st.M: st.M = frozenset(m for m in st.M if not (isinstance(m[3], tuple) and x in m[3][1]))
    def detach(self, st, x):
        """x is about to change: facts that mention it move to an equal variable, or go"""
        alt = None
        for y, c in st.z.eqs(x):
            if y != "" and y[0] not in "#^" and st.z.const(y) is None and (alt is None or alt[0][0] == "@" != y[0]): alt = (y, c)      # x == y + c
        y = self.C.origin.get(x)
        if alt is None and y is not None and st.z.get(x, y) is not None and st.z.get(y, x) == -st.z.get(x, y): alt = (y, st.z.get(x, y))
        def mv(w, o): return (alt[0], o + alt[1]) if alt else None
        nk = {}
        for (t, w, o), n in st.K.items():
            if w == x:
                m = mv(w, o)
                if m: nk[(t,) + m] = n
            else: nk[(t, w, o)] = n
        st.K = nk
        nl = {}
        for q, (t, w, o) in st.L.items():
            if w == x:
                m = mv(w, o)
                if m: nl[q] = (t,) + m
            else: nl[q] = (t, w, o)
        st.L = nl
        st.M = frozenset(m for m in st.M if m[1] != x)
        self.fixvals(st, x, None, alt)
    def fixvals(self, st, x, c, alt=None):
        tmp = []
        def sub(v):
            if v is None or not isinstance(v, tuple): return v
            k = v[0]
            if k == "i" and v[1] == x: r = re_(v[2]); return None if r is None else ("i",) + r
            if k in ("ch", "ptr") and v[2] == x: r = re_(v[3]); return None if r is None else (k, v[1]) + r
            if k == "match" and v[2] == x: r = re_(v[3]); return None if r is None else (k, v[1]) + r + v[4:]
            if k in ("d", "quo") and x in (v[1], v[2]):
                if k == "quo": return None
                if c is not None: return ("d", v[1], v[2], v[3] - (c if v[1] == x else 0) + (c if v[2] == x else 0))
                return None
            if k in ("m", "isx", "str", "not"): return (k, sub(v[1]))
            if k == "cmp": return (k, v[1], sub(v[2]), sub(v[3]))
            return v
        def re_(o):
            if c is not None: return (x, o - c)
            if alt: return (alt[0], o + alt[1])
            if not tmp:
                used = inuse(st); n = 0
                while True:
                    t = "%s@t%s%s" % (self.fr, re.sub(r"@f[^:]*:|@t|~\d+$", "", x), "~%d" % n if n else ""); n += 1
                    if t not in used: break
                tmp.append(t)
                st.z.forget(t); st.z.add(t, x, 0); st.z.add(x, t, 0)
            return (tmp[0], o)
        for k, v in list(st.vals.items()):
            n = sub(v)
            if n is not v: st.vals[k] = n
    # ---------- values
    def val(self, st, i):
        if i is None or i < 0: return None
        nd = self.fn.nodes[i]
        if isinstance(nd.get("cv"), int): return I("", cvn(nd))
        k = (self.fr, i)
        if k in st.vals: return st.vals[k]
        if nd["k"] in STRIP and nd.get("c"): return self.val(st, nd["c"][0])
        if nd["k"] in ("GNUNullExpr", "CXXNullPtrLiteralExpr"): return I("", 0)
        r = self.eval(st, i)
        return r[0][1] if isinstance(r, list) and len(r) == 1 else (r if not isinstance(r, list) else None)
    def lvtext(self, st, i):
        """(text, var, off) of an lvalue that is a character of a text"""
        fn = self.fn; i = fn.strip(i); nd = fn.nodes[i]; k = nd["k"]; c = nd.get("c", ())
        if k == "UnaryOperator" and nd["op"] == "*":
            v = self.val(st, c[0]); return v[1:] if v is not None and v[0] == "ptr" else None
        if k == "ArraySubscriptExpr":
            v = self.sum(st, self.val(st, c[0]), self.val(st, c[1]), 1)
            return v[1:] if v is not None and v[0] == "ptr" else None
        if k == "CXXOperatorCallExpr":
            v = st.vals.get((self.fr, i)); return v[1:] if v is not None and v[0] == "lv" else None
        if k == "CXXMemberCallExpr":
            v = st.vals.get((self.fr, i)); return v[1:] if v is not None and v[0] == "lv" else None
        return None
    def sum(self, st, a, b, sg):
        """a + sg*b"""
        if a is None or b is None: return None
        z = st.z
        if a[0] == "ptr" and b[0] == "ptr" and sg < 0:
            if a[1] != b[1]: return None
            return self.sum(st, I(a[2], a[3]), I(b[2], b[3]), -1)
        if a[0] == "i" and b[0] == "ptr" and sg > 0: a, b = b, a
        if a[0] == "ptr":
            r = self.sum(st, I(a[2], a[3]), b, sg)
            if r is None: return None
            if r[0] == "i": return ("ptr", a[1], r[1], r[2])
            if r[0] == "add": return None
            return None
        if a[0] == "L" and b[0] == "i": a, b = b, a
        if a[0] == "i" and b[0] == "L" and sg > 0: return ("plusL", a, b[1])
        if a[0] == "o" and b[0] == "i" and b[1] == "": return ("o", ("%s+%d" % (a[1][0], sg * b[2]), a[1][1]))
        if a[0] == "d" and b[0] == "i":
            c = b[2] if b[1] == "" else (z.const(b[1]) + b[2] if z.const(b[1]) is not None else None)
            if c is not None: return ("d", a[1], a[2], a[3] + sg * c)
            if sg > 0 and a[2] == b[1]: return I(a[1], a[3] + b[2])
            return None
        if a[0] == "i" and b[0] == "d":
            if sg > 0: 
                if a[1] == b[2]: return I(b[1], a[2] + b[3])
                if a[1] == "" : return ("d", b[1], b[2], b[3] + a[2])
            return None
        if a[0] != "i" or b[0] != "i": return None
        if b[1] == "": return I(a[1], a[2] + sg * b[2])
        cb = z.const(b[1])
        if cb is not None: return I(a[1], a[2] + sg * (cb + b[2]))
        if sg > 0:
            if a[1] == "": return I(b[1], a[2] + b[2])
            ca = z.const(a[1])
            if ca is not None: return I(b[1], ca + a[2] + b[2])
            return None
        if a[1] == b[1]: return I("", a[2] - b[2])
        return ("d", a[1] , b[1], a[2] - b[2])
    def reading(self, st, t, i):
        """the character t of a text is read"""
        return self.C.H.read(self, st, t, i)
    def load(self, st, i, t):
        """value of the lvalue i"""
        fn = self.fn; b = fn.strip(i); nd = fn.nodes[b]
        if nd["k"] in ("UnaryOperator", "ArraySubscriptExpr", "CXXOperatorCallExpr", "CXXMemberCallExpr") and nd.get("op") not in ("++", "--"):
            tx = self.lvtext(st, b)
            if tx is not None:
                self.reading(st, tx, b); return ("ch",) + tx
            if nd["k"] in ("ArraySubscriptExpr", "UnaryOperator") and (t or "").replace("const ", "").strip() in ("char", "unsigned char"):
                p = self.val(st, nd["c"][0]); q = fn.nodes[fn.strip(nd["c"][0])]
                if (p is None or p[0] != "o") and q.get("t", "").strip().endswith("*"): self.C.H.unknown_read(self, st, b)
            if nd["k"] == "ArraySubscriptExpr":
                q = self.cell(b)
                if q is not None: return I("", st.V[q]) if q in st.V else None
                return self.opaque(st, b, t)
            return None
        if nd["k"] in ("BinaryOperator", "CompoundAssignOperator") or (nd["k"] == "UnaryOperator" and nd.get("op") in ("++", "--")):
            v = st.vals.get((self.fr, b))
            return v
        if nd["k"] == "ConditionalOperator":
            q = self.truth(st, nd["c"][0])
            return None if q is None else self.load(st, nd["c"][1 if q else 2], t)
        x = self.var(b)
        if x is None: return None
        return self.rd(st, x, t)
    def rd(self, st, x, t):
        if x in st.L or x in st.V:
            n = st.V.get(x)
            if x not in st.L and isinstance(n, int): return I("", n)
            return ("cv", x)
        if x in st.T: return ("ptr", st.T[x], x, 0)
        a = st.vals.get(("al", x))
        if a is not None: return a
        t = (t or "").replace("const ", "").strip()
        if t.endswith("*"): return ("o", (x, (x,)))
        if INTT.match(t) or "enum" in t:
            if x[0] != "#" and UNS.match(t) and st.z.get("", x) is None: st.z.add("", x, 0)
            return I(x)
        return None
    def cell(self, b):
        """name of an element of a local array of characters"""
        fn = self.fn; nd = fn.nodes[b]
        if nd["k"] != "ArraySubscriptExpr": return None
        a, k = fn.strip(nd["c"][0]), fn.cv(nd["c"][1])
        if fn.k(a) == "ImplicitCastExpr": a = fn.strip(fn.c(a)[0])
        if fn.k(a) != "DeclRefExpr" or k is None or not re.match(r"^(unsigned )?char ?\[\d+\]$", fn.nodes[a].get("t", "")) or fn.nodes[a]["d"] not in fn_locals(fn): return None
        return "%s%s[%d]" % (self.fr, fn.nodes[a]["d"], k)
    def cells_lost(self, st):
        for q in [q for q in st.V if q.endswith("]")]: del st.V[q]
    def opaque(self, st, b, t):
        """an element of a table of strings, known by its expression"""
        if (t or "").replace("const ", "").strip() != "char *": return None
        deps = set()
        for x in self.fn.walk(b):
            if self.fn.k(x) == "DeclRefExpr" and self.fn.nodes[x].get("dk") in ("var", "parm"):
                v = self.var(x)
                if v is None: return None
                deps.add(v)
        return ("o", (self.fn.text(b), tuple(sorted(deps))))
    def eval(self, st, i):
        fn = self.fn; nd = fn.nodes[i]; k = nd["k"]; c = nd.get("c", ())
        if isinstance(nd.get("cv"), int): return I("", cvn(nd))
        if k in ("ImplicitCastExpr",) and nd.get("ck") == "LValueToRValue": return self.load(st, c[0], nd.get("t"))
        if k == "ImplicitCastExpr" and nd.get("ck") == "ArrayToPointerDecay":
            b = fn.strip(c[0])
            if fn.k(b) == "StringLiteral": return ("o", ('"%s"' % fn.nodes[b].get("v", ""), ()))
            return None
        if k == "StringLiteral": return None
        if k in CASTS or k in STRIP:
            v = self.val(st, c[0]); t = nd.get("t", "")
            if t == "bool" and v is not None and v[0] in ("i", "ch", "cv", "m", "isx", "str", "ptr") and nd.get("ck") not in ("NoOp", "LValueToRValue"): return ("cmp", "!=", v, I("", 0)) if v[0] in ("i", "ch", "cv", "m") else v
            if v is not None and v[0] == "d" and k == "ImplicitCastExpr" and False: return v
            return v
        if k == "UnaryOperator":
            op = nd["op"]
            if op == "!":
                v = self.val(st, c[0])
                return None if v is None else ("not", v)
            if op == "&":
                t = self.lvtext(st, c[0])
                return ("ptr",) + t if t is not None else None
            if op == "-":
                v = self.val(st, c[0])
                return I("", -v[2]) if v is not None and v[0] == "i" and v[1] == "" else None
            if op == "+": return self.val(st, c[0])
            return None
        if k == "BinaryOperator":
            op = nd["op"]
            if op == ",": return self.val(st, c[1])
            if op in NEG:
                a, b = self.val(st, c[0]), self.val(st, c[1])
                return ("cmp", op, a, b) if a is not None and b is not None else None
            if op in ("&&", "||"):
                a = self.truth(st, c[0])
                if a is None: return None
                if a == (op == "||"): return I("", int(a))
                return self.val(st, c[1])
            a, b = self.val(st, c[0]), self.val(st, c[1])
            if op == "/" and a is not None and b is not None and a[0] == "i" and a[1] != "" and b[0] == "i" and b[1] == "" and b[2] > 0: return ("quo", a[1], "", a[2], b[2])
            if op == "*" and a is not None and b is not None and a[0] == "i" and b[0] == "i":
                if a[1] != "": a, b = b, a
                q = st.vals.get(("diff", b[1])) if b[1] != "" and b[2] == 0 and a[1] == "" else ("quo",) + b[1:] if False else None
                if q is not None and q[0] == "quo" and a[2] == q[4]:
                    t = "%s@m%d" % (self.fr, i); z = st.z; lo = z.get("", b[1])
                    z.forget(t); z.add(t, q[1], q[3])
                    if lo is not None: z.add("", t, lo * a[2])
                    return I(t)
                return None
            if op in ("+", "-"):
                return self.sum(st, a, b, 1 if op == "+" else -1)
            if op == "&" and a is not None and a[0] in ("ch", "cv") : return ("m", a)
            return None
        if k == "ConditionalOperator":
            t = self.truth(st, c[0])
            if t is None: return None
            return self.val(st, c[1] if t else c[2])
        if k == "CXXNewExpr": return None
        return None
    def truth(self, st, i):
        fn = self.fn; v = st.vals.get((self.fr, i))
        if v is None: v = st.vals.get((self.fr, fn.strip(i)))
        if v is not None and v[0] == "i" and v[1] == "": return bool(v[2])
        j = fn.strip(i); nd = fn.nodes[j]
        if nd["k"] == "UnaryOperator" and nd["op"] == "!":
            t = self.truth(st, nd["c"][0]); return None if t is None else not t
        if nd["k"] == "BinaryOperator" and nd["op"] in ("&&", "||"):
            t = self.truth(st, nd["c"][0])
            if t is None or t == (nd["op"] == "||"): return t
            return self.truth(st, nd["c"][1])
        if isinstance(nd.get("cv"), int): return bool(nd["cv"])
        return None
    # ---------- effects
    def split(self, st, v):
        """a truth value used as a number"""
        if v is not None and v[0] in ("cmp", "not", "isx"):
            out = []
            for t in (True, False):
                for s in self.assume(st.copy(), v, t): out.append((s, I("", int(t))))
            return out
        return [(st, v)]
    def store(self, st, lhs, v, i):
        """-> list of states"""
        fn = self.fn; x = self.var(lhs); b = fn.strip(lhs); t = fn.nodes[b].get("t", "").replace("const ", "")
        if fn.nodes[b]["k"] in ("ArraySubscriptExpr",) or (fn.nodes[b]["k"] == "UnaryOperator" and fn.nodes[b]["op"] == "*") or x is None:
            tx = self.lvtext(st, b)
            if tx is not None: self.C.H.write(self, st, tx, b)
            elif fn.nodes[b]["k"] in ("ArraySubscriptExpr", "UnaryOperator"):
                q = self.cell(b)
                if q is not None and v is not None and v[0] == "i" and v[1] == "": st.V[q] = v[2]
                elif q is not None: st.V.pop(q, None)
                else: self.cells_lost(st)
            return [st]
        return self.put(st, x, v, t, b)
    def put(self, st, x, v, t, i=None):
        C = self.C
        self.C.H.stored(self, st, x, v, i)
        if v is not None and v[0] in ("ch", "cv"):
            if v[0] == "cv":
                n, l = st.V.get(v[1]), st.L.get(v[1])
            else: n, l = self.chconst(st, v), v[1:]
            self.setvar(st, x, None)
            if n is not None: st.V[x] = n
            if l is not None: st.L[x] = l
            if n is None and l is None: st.V.pop(x, None)
            return [st]
        if t == "bool":
            base = x[len(self.fr):] if x.startswith(self.fr) else x
            if base in self.boolvars and v is not None and v[0] in ("cmp", "not", "isx", "i"):
                out = []
                for s, w in self.split(st, v) if v[0] != "i" else [(st, v)]:
                    self.setvar(s, x, None)
                    if w is not None and w[0] == "i" and w[1] == "": s.V[x] = w[2]
                    out.append(s)
                return out
            self.setvar(st, x, None); return [st]
        if v is not None and (v[0] == "str" or (v[0] == "o" and v[1][1] != (x,))):
            self.setvar(st, x, None); st.vals[("al", x)] = v; return [st]
        st.vals.pop(("al", x), None)
        if v is not None and v[0] in ("cmp", "not", "isx"):
            out = []
            for s, w in self.split(st, v): self.setvar(s, x, w); out.append(s)
            return out
        if v is not None and v[0] == "plusL":
            a, key = v[1], v[2]
            # a + strlen(key)
            ok = None
            for tx, w, o, n in st.M:
                if w == a[1] and o == a[2] and n == key: ok = tx
            y = a[1]
            self.setvar(st, x, ("add", y, 0)) if a[2] == 0 else self.setvar(st, x, None)
            if ok is not None: st.z.add(x, ok, 0)
            elif UNS.match(t): st.z.add("", x, 0)
            return [st]
        if v is not None and v[0] == "i" and v[1] == "" and t in ("char", "unsigned char", "int") and False: pass
        if v is not None and v[0] == "i" and v[1] == "" and (x in st.V or x in st.L or (x[len(self.fr):] if x.startswith(self.fr) else x) in self.charvars()):
            self.setvar(st, x, None); st.V[x] = v[2]; return [st]
        if v is None or v[0] not in ("i", "ptr"):
            self.setvar(st, x, None)
            if UNS.match(t): st.z.add("", x, 0)
            if v is not None and v[0] in ("d", "quo") and x not in v[1:3]: st.vals[("diff", x)] = v
            return [st]
        self.setvar(st, x, v)
        if v == I("", NPOS): st.vals[("np", x)] = I("", 1)      # "not found" is kept apart from positions
        return [st]
    def charvars(self): return charvars(self.fn)
    def done(self, st, i, v):
        if v is not None: st.vals[(self.fr, i)] = v
        else: st.vals.pop((self.fr, i), None)
    def elem(self, st, i):
        fn = self.fn; nd = fn.nodes[i]; k = nd["k"]; c = nd.get("c", ())
        if isinstance(nd.get("cv"), int): return [st]
        if k == "DeclStmt":
            sts = [st]
            for d in nd["decls"]:
                if d.get("static"): continue
                if d["t"].endswith("&"): continue
                x = self.fr + d["d"]; nx = []
                for s in sts:
                    v = self.val(s, d["i"]) if d["i"] >= 0 else None
                    t = d["t"].replace("const ", "")
                    if INTT.match(t) or t in ("char *",) or "enum" in t or (v is not None and v[0] == "str"): nx += self.put(s, x, v, t)
                    else: nx.append(s)
                sts = nx
            return self.clean(sts, i)
        if k == "BinaryOperator" and nd["op"] == "=":
            v = self.val(st, c[1]); out = []
            for s in self.store(st, c[0], v, i):
                x = self.var(c[0])
                r = self.rd(s, x, fn.nodes[fn.strip(c[0])].get("t")) if x is not None else v
                if r is None: r = self.val(s, c[1])
                self.done(s, i, r); out.append(s)
            return self.clean(out, i)
        if k == "CompoundAssignOperator":
            out = []; x = self.var(c[0]); op = nd["op"]; t = fn.nodes[fn.strip(c[0])].get("t", "").replace("const ", "")
            for s, b in self.split(st, self.val(st, c[1])):
                if x is None: self.done(s, i, None); out.append(s); continue
                a = self.rd(s, x, t); v = None
                if op in ("+=", "-="): v = self.sum(s, a, b, 1 if op == "+=" else -1)
                if v is None and op == "+=" and a is not None and a[0] == "i" and b is not None and UNS.match(fn.nodes[fn.strip(c[1])].get("t", "").replace("const ", "")): v = ("addu",)
                if v == ("addu",):
                    self.setvar(s, x, ("add", x, 0)); n2 = [s]
                else: n2 = self.put(s, x, v, t)
                for q in n2: self.done(q, i, self.rd(q, x, t)); out.append(q)
            return self.clean(out, i)
        if k == "UnaryOperator" and nd["op"] in ("++", "--"):
            x = self.var(c[0]); t = fn.nodes[fn.strip(c[0])].get("t", "").replace("const ", "")
            if x is None: return self.clean([st], i)
            a = self.rd(st, x, t); d = 1 if nd["op"] == "++" else -1; out = []
            v = self.sum(st, a, I("", d), 1) if a is not None and a[0] in ("i", "ptr") else None
            for s in self.put(st, x, v, t):
                r = self.rd(s, x, t) if v is not None else None
                if r is not None and nd.get("post"): r = self.sum(s, r, I("", -d), 1)
                self.done(s, i, r); out.append(s)
            return self.clean(out, i)
        if k == "ReturnStmt":
            out = []
            if nd["e"] >= 0:
                v = self.val(st, nd["e"])
                for s, w in (self.split(st, v) if fn.d.get("ret") != "bool" else [(st, v)]):
                    s.vals[("ret", self.fr)] = w; out.append(s)
            else: out = [st]
            for s in out:
                if s.vals.get(("ret", self.fr), 0) is None: del s.vals[("ret", self.fr)]
            return out
        if k in ("CallExpr", "CXXMemberCallExpr", "CXXOperatorCallExpr"):
            return self.clean(self.C.H.call(self, st, i), i)
        if k in ("CXXConstructExpr", "CXXTemporaryObjectExpr"):
            self.C.H.construct(self, st, i); return self.clean([st], i)
        if k == "CXXThrowExpr": return []
        if k in ("BinaryOperator",) and nd["op"] in ("+", "-"):
            # a truth value in arithmetic
            if any((self.val(st, x) or ("",))[0] in ("cmp", "not", "isx") for x in c):
                sts = [st]
                for x in c:
                    nx = []
                    for s in sts:
                        w = self.val(s, x)
                        if w is not None and w[0] in ("cmp", "not", "isx"):
                            for q, r in self.split(s, w): q.vals[(self.fr, x)] = r; nx.append(q)
                        else: nx.append(s)
                    sts = nx
                for s in sts: self.done(s, i, self.eval(s, i))
                return self.clean(sts, i)
        self.done(st, i, self.eval(st, i))
        return self.clean([st], i)
    def clean(self, sts, i):
        """values of a finished full expression are dropped"""
        fn = self.fn; p = fn.par.get(i)
        if p is None or fn.k(p) in ("CompoundStmt", "IfStmt", "WhileStmt", "ForStmt", "DoStmt", "CaseStmt", "DefaultStmt", "SwitchStmt") or fn.k(i) == "DeclStmt":
            if fn.k(i) in ("DeclStmt", "BinaryOperator", "CompoundAssignOperator", "UnaryOperator", "CallExpr", "CXXMemberCallExpr", "CXXOperatorCallExpr"):
                keep = {i}
                if p is not None and fn.k(p) in ("IfStmt", "WhileStmt", "ForStmt", "DoStmt", "SwitchStmt"): return sts
                for s in sts:
                    for k in [k for k in s.vals if k[0] == self.fr and k[1] not in keep]: del s.vals[k]
        return sts

# ---------- properties of functions
def rpo(fn):
    if getattr(fn, "_rpo", None) is None:
        seen = set(); out = []
        def go(b):
            st = [(b, iter(x for x in fn.cfg[b]["s"] if x is not None))]; seen.add(b)
            while st:
                x, it = st[-1]
                for y in it:
                    if y not in seen: seen.add(y); st.append((y, iter(q for q in fn.cfg[y]["s"] if q is not None))); break
                else: out.append(x); st.pop()
        go(fn.entry); fn._rpo = {b: n for n, b in enumerate(reversed(out))}
    return fn._rpo
def loops(fn):
    """targets of back edges"""
    if getattr(fn, "_heads", None) is None:
        o = rpo(fn); fn._heads = {s for b in o for s in fn.cfg[b]["s"] if s is not None and s in o and o[s] <= o[b]}
    return fn._heads
def changed(fn, h):
    """variables that the loop with head h may change"""
    if getattr(fn, "_chg", None) is None: fn._chg = {}
    if h in fn._chg: return fn._chg[h]
    o = rpo(fn); pred = {}
    for b, B in fn.cfg.items():
        for s in B["s"]:
            if s is not None: pred.setdefault(s, []).append(b)
    body = {h}; work = [b for b in pred.get(h, ()) if b in o and o[h] <= o[b]]
    while work:
        b = work.pop()
        if b in body: continue
        body.add(b); work.extend(pred.get(b, ()))
    out = set()
    def root(i):
        p = fn.path(i)
        if p: out.add(p[0])
        else:
            for j in fn.walk(i):
                if fn.k(j) == "DeclRefExpr": out.add(fn.nodes[j].get("d"))
    for b in body:
        for e in fn.cfg[b]["e"]:
            if isinstance(e, dict): continue
            nd = fn.nodes[e]; k = nd["k"]
            if k == "UnaryOperator" and nd["op"] in ("++", "--", "&") or k in ("BinaryOperator", "CompoundAssignOperator") and nd["op"].endswith("=") and nd["op"] not in ("==", "!=", "<=", ">="): root(nd["c"][0])
            elif k in ("CallExpr", "CXXMemberCallExpr", "CXXOperatorCallExpr", "CXXConstructExpr"):
                for c in nd.get("c", ()):
                    if fn.k(c) in ("DeclRefExpr", "MemberExpr", "MaterializeTemporaryExpr"): root(c)
            elif k == "DeclStmt":
                for d in nd["decls"]: out.add(d["d"])
    fn._chg[h] = out
    return out
def fn_locals(fn):
    if getattr(fn, "_locs", None) is None:
        fn._locs = {d["d"] for nd in fn.nodes if nd["k"] == "DeclStmt" for d in nd["decls"]} | {p["d"] for p in fn.params if not p["t"].endswith("&")}
    return fn._locs
def liveness(fn):
    """block -> local variables that may be used in it or after it"""
    if getattr(fn, "_live", None) is not None: return fn._live
    use = {}
    for b, B in fn.cfg.items():
        u = set()
        els = [e for e in B["e"] if not isinstance(e, dict)] + ([B["cond"]] if "cond" in B else []) + ([B["lc"]] if "lc" in B else [])
        for e in els:
            for x in fn.walk(e):
                if fn.k(x) == "DeclRefExpr": u.add(fn.nodes[x]["d"])
                elif fn.k(x) == "DeclStmt":
                    for d in fn.nodes[x]["decls"]:
                        if d["i"] >= 0: u |= {fn.nodes[y]["d"] for y in fn.walk(d["i"]) if fn.k(y) == "DeclRefExpr"}
        al = fn.alias()
        for d in list(u):
            n = 0
            while d in al and n < 5:
                p = fn.path(al[d])
                if p is None: break
                u.add(p[0]); d = p[0]; n += 1
        use[b] = u
    kill = {}
    for b, B in fn.cfg.items():
        k = set(); first = {}
        for e in B["e"]:
            if isinstance(e, dict): continue
            nd = fn.nodes[e]
            if nd["k"] == "DeclRefExpr": first.setdefault(nd["d"], "u")
            elif nd["k"] == "DeclStmt":
                for d in nd["decls"]: first.setdefault(d["d"], "d")
        for d, w in first.items():
            if w == "d": k.add(d)
        kill[b] = k
    live = {b: set(use[b]) - kill[b] for b in fn.cfg}; ch = True
    while ch:
        ch = False
        for b, B in fn.cfg.items():
            n = set(live[b])
            for s in B["s"]:
                if s is not None: n |= live[s] - kill[b]
            if n != live[b]: live[b] = n; ch = True
    fn._live = live
    return live
def crossvals(fn):
    """block -> expression nodes evaluated before it whose value is used in it or after it"""
    if getattr(fn, "_cross", None) is not None: return fn._cross
    where = {}
    for b, B in fn.cfg.items():
        for e in B["e"]:
            if not isinstance(e, dict): where.setdefault(e, b)
    need = {b: set() for b in fn.cfg}
    for b, B in fn.cfg.items():
        els = [e for e in B["e"] if not isinstance(e, dict)] + [B[x] for x in ("cond", "lc") if x in B]
        own = {e for e in B["e"] if not isinstance(e, dict)}
        for e in els:
            for x in fn.walk(e):
                if x in where and x not in own: need[b].add(x)
                if fn.k(x) == "DeclStmt":
                    for d in fn.nodes[x]["decls"]:
                        if d["i"] >= 0:
                            for y in fn.walk(d["i"]):
                                if y in where and y not in own: need[b].add(y)
    # propagate backwards up to the block of the definition
    live = {b: set(need[b]) for b in fn.cfg}; ch = True
    while ch:
        ch = False
        for b, B in fn.cfg.items():
            own = {e for e in B["e"] if not isinstance(e, dict)} | {B[x] for x in ("lc",) if x in B}
            n = set(live[b])
            for s in B["s"]:
                if s is not None: n |= live[s] - own
            if n != live[b]: live[b] = n; ch = True
    fn._cross = live
    return live
def charvars(fn):
    """local integers that are assigned characters"""
    if getattr(fn, "_cvars", None) is None:
        out = set()
        def ischar(i):
            i = fn.strip(i); nd = fn.nodes[i]
            t = nd.get("t", "").replace("const ", "").replace("&", "").strip()
            if t in ("char", "unsigned char"): return True
            if nd["k"] in ("CallExpr", "CXXMemberCallExpr") and nd.get("n") in ("at", "escape_at", "escapes_at"): return True
            if nd["k"] == "BinaryOperator" and nd["op"] == "=": return ischar(nd["c"][1])
            return False
        for nd in fn.nodes:
            if nd["k"] == "DeclStmt":
                for d in nd["decls"]:
                    if d["i"] >= 0 and ischar(d["i"]) and INTT.match(d["t"].replace("const ", "")): out.add(d["d"])
            elif nd["k"] == "BinaryOperator" and nd["op"] == "=":
                l = fn.strip(nd["c"][0])
                if fn.k(l) == "DeclRefExpr" and ischar(nd["c"][1]): out.add(fn.nodes[l]["d"])
        fn._cvars = out
    return fn._cvars
def textbools(fn):
    """bool locals that are assigned the outcome of looking at a character"""
    if getattr(fn, "_tb", None) is None:
        out = set()
        def looks(i):
            return any(fn.k(x) in ("ArraySubscriptExpr", "CXXOperatorCallExpr") or (fn.k(x) == "DeclRefExpr" and fn.nodes[x]["d"] in charvars(fn)) or (fn.k(x) in ("CallExpr", "CXXMemberCallExpr") and fn.nodes[x].get("n") in ("at", "escape_at", "eq_at")) for x in fn.walk(i))
        for nd in fn.nodes:
            if nd["k"] == "DeclStmt":
                for d in nd["decls"]:
                    if d["t"].replace("const ", "") == "bool" and d["i"] >= 0 and looks(d["i"]): out.add(d["d"])
            elif nd["k"] == "BinaryOperator" and nd["op"] == "=":
                l = fn.strip(nd["c"][0])
                if fn.k(l) == "DeclRefExpr" and fn.nodes[l].get("t") == "bool" and looks(nd["c"][1]): out.add(fn.nodes[l]["d"])
        fn._tb = out
    return fn._tb

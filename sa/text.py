"""Models and obligations for cur.py: C strings and std::strings walked by cursors."""
from cur import *

STR = re.compile(r"^(std::(__cxx11::)?)?basic_string<char")
def isstr(t): return bool(STR.match((t or "").replace("const ", "").replace("&", "").strip()))

class Hooks:
    def __init__(self, P, scope, inline=None):
        self.P = P; self.scope = scope; self.inl = inline or (lambda f: len(f.nodes) < 90)
        self.obs = {}; self.nonzero_vars = set(); self.depth = 0; self.sites = []; self.unknown = {}
        self.rec = recursive(P, scope)
    # ---------- obligations
    def ob(self, F, i, rule, ok, what):
        if not F.C.final: return
        G, j = self.sites[0] if self.sites else (F, i)     # helpers are judged where they are called
        if self.sites: what = "%s (in %s)" % (what, G.fn.text(j)[:60])
        key = (rule, G.fn.id, j, F.fn.id, i)
        o = self.obs.get(key)
        if o is None: self.obs[key] = [ok, what, G, j]
        elif not ok and o[0]: o[0] = False; o[1] = what
    def within(self, F, st, t, i, rule, what, lower=True):
        """cursor t = (text, var, off) lies in 0..LEN"""
        text, var, off = t
        g = st.z.get(var, text)
        ok = g is not None and g <= -off
        if not ok and st.K.get((text, var, off)) is not None or st.K.get((text, var, off - 1), 0) != 0: ok = True
        low = True
        if lower:
            h = st.z.get("", var); low = var == "" and off >= 0 or (h is not None and h <= off)
        self.ob(F, i, rule, ok and low, "%s may lie %s the text" % (what, "behind" if not ok else "before"))
        if not ok: st.z.add(var, text, -off)
        if not low: st.z.add("", var, off)
        return ok and low
    def read(self, F, st, t, i):
        self.within(F, st, t, i, "READ", "the character read by " + F.fn.text(i)[:60])
    def unknown_read(self, F, st, i):
        self.ob(F, i, "READ", False, "it is not known which character %s reads" % F.fn.text(i)[:60])
    def write(self, F, st, t, i): self.forget_text(st, t[0])
    def stored(self, F, st, x, v, i=None): pass
    def construct(self, F, st, i):
        fn = F.fn; nd = fn.nodes[i]; c = nd.get("c", ())
        if isstr(nd.get("t")) and len(c) >= 2:
            a, n = F.val(st, c[0]), F.val(st, c[1])
            if a is not None and a[0] == "ptr" and not fn.k(fn.strip(c[1])) == "CXXDefaultArgExpr" and fn.nodes[fn.strip(c[1])].get("t", "").replace("const ", "") in ("unsigned long", "int", "long", "unsigned int"):
                self.span(F, st, a, n, i)
        F.done(st, i, None)
    def span(self, F, st, a, n, i):
        """n characters from a on"""
        self.within(F, st, a[1:], i, "SPAN", "the start of " + F.fn.text(i)[:60])
        text, var, off = a[1:]
        ok = False
        z = st.z
        if n is not None:
            e = F.sum(st, I(var, off), n, 1)
            if e is not None and e[0] == "i":
                g = z.get(e[1], text); ok = g is not None and g <= -e[2]
            if n[0] == "d":      # var+off + x - y + c, with var+off <= y (+k)
                x, y, c = n[1:]
                g, h = z.get(var, y), z.get(x, text)
                if g is not None and h is not None and g + off + h + c <= 0: ok = True
            elif n[0] == "i" and n[1] != "" and not ok:
                # the amount was taken as a difference
                for k in (n[1],):
                    d = st.vals.get(("diff", k))
                    if d is not None and d[0] == "d":
                        x, y, c = d[1:]; g, h = z.get(var, y), z.get(x, text)
                        if g is not None and h is not None and g + off + h + c + n[2] <= 0: ok = True
            # never negative
            if n[0] == "d":
                g = z.get(n[2], n[1]); neg = not (g is not None and g <= n[3])
                self.ob(F, i, "COUNT", not neg, "the number of characters of %s may be negative" % F.fn.text(i)[:60])
        self.ob(F, i, "SPAN", ok, "%s may reach behind the text" % F.fn.text(i)[:70])
    def forget_text(self, st, text):
        st.z.forget(text); st.z.add("", text, 0)
        st.K = {k: v for k, v in st.K.items() if k[0] != text}
        st.L = {k: v for k, v in st.L.items() if v[0] != text}
        st.M = frozenset(m for m in st.M if m[0] != text)
    def otext(self, F, st, o):
        """the text kept by the std::string object expression o, or None"""
        v = F.var(o)
        if v is None:
            j = F.fn.strip(o); nd = F.fn.nodes[j]      # a constant reference to a string found by a call
            if F.fn.k(j) != "DeclRefExpr" or not nd.get("t", "").startswith("const ") or nd.get("dk") != "var": return None
            v = F.fr + nd["d"]
        t = "#S:" + v
        if st.z.get("", t) is None: st.z.add("", t, 0)
        return t
    # ---------- calls
    def call(self, F, st, i):
        C = F.C; fn = F.fn; nd = fn.nodes[i]; k = nd["k"]; c = list(nd["c"]); name = nd.get("n"); fid = nd.get("fn", "")
        args = c[1:]; obj = None
        if k == "CXXMemberCallExpr":
            me = fn.strip(c[0]); obj = fn.c(me)[0] if fn.k(me) == "MemberExpr" and fn.c(me) else None
        elif k == "CXXOperatorCallExpr" and nd.get("cls"):
            obj = args[0]; args = args[1:]; name = "operator" + nd.get("op", "")
        t = nd.get("t", "")
        if nd.get("noret"): return []
        if obj is not None and isstr(nd.get("cls")): return self.string(F, st, i, nd, name, obj, args)
        base = name
        av = [F.val(st, a) for a in args]
        if base in ISX and len(av) == 1:
            F.done(st, i, ("isx", av[0]) if av[0] is not None else None); return [st]
        if base in ("tolower", "toupper") and len(av) == 1:
            F.done(st, i, ("m", av[0]) if av[0] is not None and av[0][0] in ("ch", "cv") else None); return [st]
        if base == "strlen":
            a = av[0]
            if a is not None and a[0] == "ptr":
                self.within(F, st, a[1:], i, "SPAN", "the start of " + fn.text(i)[:60])
                F.done(st, i, F.sum(st, I(a[1]), I(a[2], a[3]), -1) if a[2] else I(a[1], -a[3]))
            elif a is not None and a[0] == "o":
                s = a[1][0]
                F.done(st, i, I("", len(s) - 2) if s.startswith('"') and not a[1][1] else ("L", a[1]))
            else: F.done(st, i, None)
            return [st]
        if base in ("strchr", "memchr") and len(av) >= 2:
            a = av[0]
            if a is not None and a[0] == "ptr": self.within(F, st, a[1:], i, "SPAN", "the start of " + fn.text(i)[:60]); F.done(st, i, None); return [st]
            F.done(st, i, ("str", av[1]) if av[1] is not None and av[1][0] in ("ch", "cv", "m") else None)
            return [st]
        if base in ("strtoul", "strtol", "strtoull", "strtod") and len(av) >= 2:
            a = av[0]; b = fn.strip(args[1])
            if a is not None and a[0] == "ptr": self.within(F, st, a[1:], i, "SPAN", "the start of " + fn.text(i)[:60])
            if fn.k(b) == "UnaryOperator" and fn.nodes[b]["op"] == "&":
                x = F.var(fn.c(b)[0])
                if x is not None:
                    if a is not None and a[0] == "ptr":
                        r = "%s@e%d" % (F.fr, i); F.setvar(st, r, None); st.z.add(a[2], r, -a[3]); st.z.add(r, a[1], 0)
                        F.setvar(st, x, ("ptr", a[1], r, 0)); st.z.forget(r)
                    else: F.setvar(st, x, None)
            F.done(st, i, None); return [st]
        if base in ("strncmp", "strcmp", "memcmp"):
            a, b = av[0], av[1]
            if b is not None and b[0] == "ptr": a, b = b, a
            if a is not None and a[0] == "ptr":
                self.within(F, st, a[1:], i, "SPAN", "the start of " + fn.text(i)[:60])
                n = None
                if b is not None and b[0] == "o":
                    s = b[1][0]; lit = s.startswith('"') and not b[1][1]
                    if base != "strcmp" and len(av) > 2:
                        m = av[2]
                        if m is not None and m[0] == "i" and m[1] == "": n = min(m[2], len(s) - 2) if lit else None
                        elif m is not None and m[0] == "L" and m[1] == b[1]: n = m[1]
                    elif lit: n = len(s) - 2
                if base == "memcmp":
                    if isinstance(av[2], tuple): self.span(F, st, a, av[2], i)
                F.done(st, i, ("match",) + a[1:] + (n,) if n is not None else None)
            else: F.done(st, i, None)
            return [st]
        g = self.P.fns.get(fid)
        if g is not None and g.cfg is not None and (obj is not None or not nd.get("mem")):
            this = self.thisof(F, obj)
            if self.inl(g) and g.id not in self.rec and self.depth < 8: return self.inline(F, st, i, g, this, args, av)
            if self.scope(g) and this in (None, "this"): return self.summary(F, st, i, g, args, av)
        return self.other(F, st, i, nd, args, av)
    def thisof(self, F, obj):
        if obj is None: return None
        v = F.var(obj)
        return v if v is not None else "?"
    def other(self, F, st, i, nd, args, av):
        fn = F.fn; pt = nd.get("pt", [])
        sp = self.model(F, st, i, nd, args, av)
        if sp is not None: return sp
        for n, a in enumerate(args):
            t = pt[n] if n < len(pt) else ""
            v = av[n]
            if v is not None and v[0] == "ptr":
                nx = av[n + 1] if n + 1 < len(av) else None
                self.within(F, st, v[1:], i, "SPAN", "the start of " + fn.text(i)[:60])
            if t.endswith("&") and not t.startswith("const "): self.lose(F, st, a)
            elif t.endswith("*") and not t.startswith("const "):
                b = fn.strip(a)
                if fn.k(b) == "UnaryOperator" and fn.nodes[b]["op"] == "&": self.lose(F, st, fn.c(b)[0])
                F.cells_lost(st)
        F.done(st, i, self.result(F, st, i, nd.get("t", "")))
        return [st]
    def model(self, F, st, i, nd, args, av): return None
    def result(self, F, st, i, t): return None
    def lose(self, F, st, a):
        x = F.var(a)
        if x is None: return
        t = F.fn.nodes[F.fn.strip(a)].get("t", "")
        if isstr(t): self.forget_text(st, "#S:" + x)
        else:
            F.setvar(st, x, None)
            if UNS.match(t.replace("const ", "")): st.z.add("", x, 0)
    # ---------- std::string
    def string(self, F, st, i, nd, name, obj, args):
        fn = F.fn; C = F.C; T = self.otext(F, st, obj); av = [F.val(st, a) for a in args]
        pt = nd.get("pt", [])
        # spans of texts given to it
        if name in ("append", "assign", "replace", "insert", "compare", "operator=", "operator+=", "find", "push_back"):
            for n, v in enumerate(av):
                if v is not None and v[0] == "ptr" and n < len(pt) and pt[n].replace("const ", "").strip() == "char *":
                    if n + 1 < len(av) and pt[n + 1] == "unsigned long": self.span(F, st, v, av[n + 1], i)
                    else: self.within(F, st, v[1:], i, "SPAN", "the start of " + fn.text(i)[:60])
        if T is None:
            F.done(st, i, None); return [st]
        if name in ("c_str", "data") : F.done(st, i, ("ptr", T, "", 0)); return [st]
        if name in ("size", "length"): F.done(st, i, I(T)); return [st]
        if name == "empty": F.done(st, i, ("cmp", "==", I(T), I("", 0))); return [st]
        if name in ("operator[]", "at") and av:
            v = av[0]
            if v is not None and v[0] == "i":
                if name == "at" and nd.get("cls"): st.z.add(v[1], T, -v[2] - 1)       # throws otherwise
                F.done(st, i, ("lv", T, v[1], v[2]))
            else:
                self.ob(F, i, "READ", False, "the index of %s is not understood" % fn.text(i)[:60]); F.done(st, i, None)
            return [st]
        if name in ("back", "front"):
            F.done(st, i, ("lv", T, T, -1) if name == "back" else ("lv", T, "", 0)); return [st]
        if name == "compare" and len(av) >= 3:
            p, n, s = av[:3]
            if p is not None and p[0] == "i":
                st.z.add(p[1], T, -p[2])            # throws otherwise
                m = n[2] if n is not None and n[0] == "i" and n[1] == "" else n[1] if n is not None and n[0] == "L" else None
                if s is not None and s[0] == "o" and s[1][0].startswith('"') and isinstance(m, int): m = len(s[1][0]) - 2
                if s is not None and s[0] == "o" and isinstance(m, tuple) and m != s[1]: m = None
                F.done(st, i, ("match", T, p[1], p[2], m) if m is not None else None)
            else: F.done(st, i, None)
            return [st]
        if name in ("find", "find_first_of", "find_first_not_of"):
            out = []
            s = st.copy(); F.done(s, i, I("", NPOS)); out.append(s)
            r = "%s@r%d" % (F.fr, i)
            F.setvar(st, r, None); st.z.add("", r, 0); st.z.add(r, T, -1)
            p = av[1] if len(av) > 1 else I("", 0)
            if p is not None and p[0] == "i": st.z.add(p[1], r, -p[2])
            v = av[0]
            if name == "find" and v is not None and v[0] == "i" and v[1] == "" and pt and pt[0] == "char": st.K[(T, r, 0)] = v[2]
            elif name == "find" and v is not None and v[0] == "o" and v[1][0].startswith('"'): st.z.add(r, T, -(len(v[1][0]) - 2))
            F.done(st, i, I(r)); out.append(st)
            return out
        if name == "substr":
            if av and av[0] is not None and av[0][0] == "i": st.z.add(av[0][1], T, -av[0][2])   # throws otherwise
            F.done(st, i, None); return [st]
        if nd.get("cst"): F.done(st, i, None); return [st]
        self.changed(F, st, i, T, obj)
        self.forget_text(st, T)
        if name in ("operator=", "assign") and len(av) == 1 and av[0] is not None and av[0][0] == "ptr" and av[0][2] == "" and av[0][3] == 0:
            st.z.add(T, av[0][1], 0); st.z.add(av[0][1], T, 0)
        F.done(st, i, None)
        return [st]
    def changed(self, F, st, i, T, obj): pass
    # ---------- calls of known functions
    def inline(self, F, st, i, g, this, args, av):
        C = F.C; used = {x.split(":")[0] for x in st.z.vars() | inuse(st) if x.startswith("@f")}; n = 0
        while "@f%d_%d" % (self.depth, n) in used: n += 1
        fr = "@f%d_%d:" % (self.depth, n); env = {}
        if this is not None: env["this"] = None if this == "?" else this
        G = Fr(C, g, env, fr); sts = [st]
        for n, p in enumerate(g.params):
            t = p["t"]; u = t.replace("const ", "").strip()
            if n >= len(args): continue
            if t.endswith("&"):
                x = F.var(args[n])
                if x is None and not isstr(t):
                    sts = [s2 for s in sts for s2 in G.put(s, fr + p["d"], av[n], u.rstrip("& "))]
                else: env[p["d"]] = x
            else:
                if av[n] is not None and av[n][0] == "i" and av[n][1] != "": C.origin[fr + p["d"]] = av[n][1]
                else: C.origin.pop(fr + p["d"], None)
                sts = [s2 for s in sts for s2 in G.put(s, fr + p["d"], av[n], u)]
        self.depth += 1; self.sites.append((F, i))
        outs = G.fix(sts)
        self.depth -= 1; self.sites.pop()
        out = []
        for s, v in outs:
            for k in [k for k in s.vals if k[0] == fr]: del s.vals[k]
            def res(v):
                if not isinstance(v, tuple): return v
                if v and v[0] == "cv" and v[1].startswith(fr):
                    if v[1] in s.L: return ("ch",) + s.L[v[1]]
                    if isinstance(s.V.get(v[1]), int): return I("", s.V[v[1]])
                return tuple(res(x) for x in v)
            F.done(s, i, res(v))
            for x in [x for x in s.z.vars() if x.startswith(fr)]: F.detach(s, x); s.z.forget(x)
            for d in (s.V, s.L, s.T):
                for x in [x for x in d if x.startswith(fr)]: del d[x]
            for k in [k for k in s.vals if k[0] in ("al", "diff", "np") and k[1].startswith(fr)]: del s.vals[k]
            out.append(s)
        return out
    def summary(self, F, st, i, g, args, av):
        C = F.C; z = st.z
        M = {"": ("", 0)}                       # name in the callee -> (caller's variable, offset)
        shifted = {}                            # texts whose base in the callee is not the caller's
        refs = {}
        for n, p in enumerate(g.params):
            t = p["t"]; d = p["d"]
            if n >= len(args): continue
            v = av[n]; u = t.replace("const ", "").strip()
            if u == "char *":
                if v is not None and v[0] == "ptr":
                    self.within(F, st, v[1:], i, "SPAN", "the argument %s of %s" % (fn_text(F, args[n]), g.name))
                    b = z.const(v[2]) if v[2] != "" else 0
                    if b is not None and b + v[3] == 0: M["#" + d] = (v[1], 0)
                    else: shifted["#" + d] = v[1:]
            elif isstr(t):
                x = F.var(args[n])
                if x is not None and t.endswith("&"): M["#S:" + d] = ("#S:" + x, 0); self.otext(F, st, args[n])
            elif t.endswith("&") and not t.startswith("const "):
                x = F.var(args[n])
                if x is not None and INTT.match(t[:-1].strip()): refs[d] = x; M[d] = (x, 0)
            elif v is not None and v[0] == "i": M[d] = (v[1], v[2])
        names = set(M) | {x for x in z.vars() if x.startswith(("this.", "#S:this."))}
        for x in names - set(M): M[x] = (x, 0)
        e = Zone()
        for a in names:
            for b in names:
                if a == b: continue
                (va, ca), (vb, cb) = M[a], M[b]
                c = z.get(va, vb)
                if c is not None: e.put(a, b, c + ca - cb)
        for t, (tx, var, off) in shifted.items():
            c = z.get(var, tx)
            if c is not None: e.put("", t, c + off)
            e.put(t, t + "!", 0) if False else None
        for p in g.params:
            u = p["t"].replace("const ", "").strip()
            if UNS.match(u.rstrip("& ")):
                c = e.get("", p["d"])
                if c is None or c > 0: e.put("", p["d"], 0)
        r = Zone()
        for x, m in e.o.items():
            for y, c in m.items(): r.add(x, y, c)
        C.call_summary(g.id, r, C.stack[-1] if C.stack else None)
        ex = C.exits.get(g.id)
        # what the callee may do besides: string parameters
        for n, p in enumerate(g.params):
            t = p["t"]
            if t.endswith("&") and not t.startswith("const ") and n < len(args) and p["d"] not in refs: self.lose(F, st, args[n])
        if ex is None: return []                # not known to return (yet)
        base = st; outs = []; kf = {d: [(t, n) for t, n in st.K.items() if t[1] == x] for d, x in refs.items()}
        for kk, zz in sorted(ex.items(), key=lambda x: sorted(x[0])):
            st = base if len(ex) == 1 else base.copy()
            # entry values of reference arguments
            old = {}
            N = dict(M)
            for p in g.params:
                if p["d"] in M and p["d"] not in refs: N["^" + p["d"]] = M[p["d"]]
            for d, x in refs.items():
                t = "%s@o%s" % (F.fr, d); F.setvar(st, t, I(x)); old[d] = t
            for d, x in refs.items():
                F.setvar(st, x, None); N["^" + d] = (old[d], 0); N[d] = (x, 0)
                st.z.add("", x, 0)
            rv = None; t = (g.d.get("ret") or "").replace("const ", "")
            if INTT.match(t) or "enum" in t:
                r = "%s@r%d" % (F.fr, i); F.setvar(st, r, None); N["@ret"] = (r, 0); rv = I(r)
                if UNS.match(t): st.z.add("", r, 0)
            elif t == "char *" and C.retptr.get(g.id):
                src = C.retptr[g.id]; k = "#" + src
                r = "%s@r%d" % (F.fr, i); F.setvar(st, r, None)
                if k in M: N["@ret"] = (r, 0); rv = ("ptr", M[k][0], r, 0)
                elif k in shifted:
                    tx, var, off = shifted[k]
                    c = zz.get("@ret", k)
                    if c is not None: st.z.add(r, tx, c)
                    c = zz.get("", "@ret")
                    if c is not None: st.z.add(var, r, c - off)
                    rv = ("ptr", tx, r, 0)
            bad = False
            for a, m in zz.o.items():
                for b, c in m.items():
                    if a in N and b in N:
                        (va, ca), (vb, cb) = N[a], N[b]
                        if not st.z.add(va, vb, c - ca + cb): bad = True
            if bad: continue
            for (tx, w, o), n in kk:
                if tx in M and w in refs: st.K[(M[tx][0], refs[w], o)] = n
            # a reference argument that stays what it is keeps the characters known there
            alts = [st]
            for d, x in refs.items():
                if not kf[d]: continue
                nx = []
                for s in alts:
                    o = old[d]; lo, hi = s.z.get(o, x), s.z.get(x, o)
                    if (lo is not None and lo < 0) or (hi is not None and hi < 0): nx.append(s); continue
                    if not (lo == 0 or hi == 0): nx.append(s); continue
                    e = s.copy()
                    if e.z.add(o, x, 0) and e.z.add(x, o, 0) and all(e.K.get(t, n) == n for t, n in kf[d]):
                        e.K.update(kf[d]); nx.append(e)
                    if s.z.add(o, x, -1) if lo == 0 else s.z.add(x, o, -1): nx.append(s)
                alts = nx
            for st in alts:
                for t in old.values():
                    if t not in inuse(st): st.z.forget(t)
                for x in list(st.V):
                    if x in refs.values(): st.V.pop(x, None); st.L.pop(x, None)
                F.done(st, i, rv); outs.append(st)
        return outs

def fn_text(F, i): return F.fn.text(i)[:40]

def recursive(P, scope):
    """functions on a call cycle"""
    g = {}
    for f in P.fns.values(): g[f.id] = {nd["fn"] for nd in f.nodes if nd["k"] in ("CallExpr", "CXXMemberCallExpr", "CXXOperatorCallExpr") and nd.get("fn") in P.fns}
    out = set()
    for f in g:
        seen = set(); st = list(g[f])
        while st:
            x = st.pop()
            if x == f: out.add(f); break
            if x in seen: continue
            seen.add(x); st.extend(g.get(x, ()))
    return out

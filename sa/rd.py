"""Functions that deliver input into a destination (s, n): where they write, how much they say they wrote, and what they keep of a
character that did not fit. Affine domain (aff.py). A ghost value w is the end of what was written to the destination so far."""
from core import *
from aff import *

W = ("w",)                 # end of what was written to the destination
G = ("g",); X = ("e",)     # of the character or bytes held in utf8_: how much was delivered, and where they end
T = lambda n: ("this", n)

class Hooks:
    ghosts = (W, G, X)
    def __init__(self, P, cap=None):
        self.P = P; self.cap = 16
        for r in P.recs.values():
            for f in r["fields"]:
                m = re.match(r"char\s*\[(\d+)\]$", f["t"])
                if f["n"] == "utf8_" and m: self.cap = int(m.group(1))
    def ob(self, F, st, rule, ok, i, what):
        f = F.fn
        self.E.report(rule, bool(ok), "%s: %s: %s" % (rule, f.name, what), f.at(i) if i is not None else f.where(), what)
    def initial(self, E, fn):
        self.E = E; st = St(); st.x = {}
        s = E.fresh("s"); n = E.fresh("n", st, 0)
        self.s0, self.n0 = s, n; st.mem[W] = s
        self.u = E.fresh("utf8_"); st.mem[T("utf8_") + ("[]",)] = self.u
        st.mem[T("uidx_")] = E.fresh("uidx", st, 0); st.mem[T("ulen_")] = E.fresh("ulen", st, 0)
        st.fact(N(self.cap) - st.mem[T("uidx_")] - st.mem[T("ulen_")])
        st.mem[G] = st.mem[T("uidx_")]; st.mem[X] = st.mem[T("uidx_")] + st.mem[T("ulen_")]
        return st
    def at(self, a, base): return isinstance(a, L) and isinstance(base, L) and len(base.a) == 1 and any(k == base.a[0][0] and v == 1 for k, v in a.a)
    def dst(self, a): return self.at(a, self.s0)
    def write_n(self, F, st, a, k, i, what):
        """k bytes are written at a"""
        ok = isinstance(k, L) and prove(st, self.s0 + self.n0 - a - k) and prove(st, a - self.s0)
        self.ob(F, st, "DEST", ok, i, "%s may write past the space given" % what)
        self.ob(F, st, "DENSE", prove(st, st.mem[W] - a), i, "%s leaves a gap in what is delivered" % what)
        if isinstance(k, L): st.mem[W] = a + k
    # -- aff hooks
    def modset(self, fid): return set() if "utf8(" in fid else None
    def load(self, F, st, a, i, t):
        v = self.E.fresh("b", st, -128, 127)
        if self.at(a, self.u):
            x = a - self.u
            self.ob(F, st, "PEND", prove(st, x) and prove(st, st.mem[X] - x - 1), i, "%s reads beyond the bytes pending" % F.fn.text(i))
            st.x["from"] = (v, x)
            return v
        return self.E.typed(st, "ld", t)
    def taken(self, F, st, x, k, i, what):
        """k bytes of what utf8_ holds are delivered, from x on"""
        g = st.mem[G]
        self.ob(F, st, "PEND", prove(st, x - g) and prove(st, g - x), i, "%s does not deliver the bytes pending in order" % what)
        if isinstance(k, L): st.mem[G] = x + k
    def member(self, F, st, p, v, i): return None
    def uchar(self, F, st, v): return self.E.fresh("uc", st, 0, 255)
    def write(self, F, st, a, v, i):
        if a is None: return None
        if self.dst(a):
            self.write_n(F, st, a, N(1), i, F.fn.text(i))
            f = st.x.get("from")
            if f is not None and f[0] == v: self.taken(F, st, f[1], N(1), i, F.fn.text(i))
        elif self.at(a, self.u):
            # a character is stored by hand: treat like the encoder
            x = a - self.u
            if x.const() == 0 or st.mem[G] != N(0): self.pending(F, st, i); st.mem[G] = N(0); st.mem[X] = N(0)
            self.ob(F, st, "PEND", prove(st, N(self.cap - 1) - x), i, "%s may write past the end of utf8_" % F.fn.text(i))
            st.mem[X] = x + 1
        return None
    def store(self, F, st, p, v, i): return None
    def call(self, F, st, i, fid, obj, args, av):
        E = self.E
        if fid is None: return None
        n = fid.split("(")[0].split("::")[-1]; tx = F.fn.text(i)
        if n in ("memcpy", "memmove") and len(args) == 3:
            d, s, k = av
            if self.dst(d):
                self.write_n(F, st, d, k, i, tx)
                if self.at(s, self.u):
                    x = s - self.u
                    self.ob(F, st, "PEND", isinstance(k, L) and prove(st, st.mem[X] - x - k), i, "%s reads beyond the bytes pending" % tx)
                    self.taken(F, st, x, k, i, tx)
            return [(st, d if isinstance(d, L) else None)]
        if n == "fread" and len(args) >= 3:
            d, sz, c = av[:3]
            r = E.fresh("rd", st, 0)
            if isinstance(c, L): st.fact(c - r)
            if self.dst(d):
                k = sz.mul(c.c) if isinstance(c, L) and c.const() is not None and isinstance(sz, L) else c.mul(sz.c) if isinstance(sz, L) and sz.const() is not None and isinstance(c, L) else None
                ok = isinstance(k, L) and prove(st, self.s0 + self.n0 - d - k)
                self.ob(F, st, "DEST", ok, i, "%s may write past the space given" % tx)
                self.ob(F, st, "DENSE", prove(st, st.mem[W] - d), i, "%s leaves a gap in what is delivered" % tx)
                st.mem[W] = d + (r.mul(sz.c) if isinstance(sz, L) and sz.const() is not None else N(0))
            return [(st, r)]
        if n == "utf8" and len(args) == 2:
            r = E.fresh("u8", st, 1, 6)
            if self.at(av[1], self.u):
                if isinstance(av[0], L) and prove(st, av[0] - 0x80) and prove(st, N(0x7FF) - av[0]): st.eq(r - 2)
                self.pending(F, st, i)
                self.ob(F, st, "PEND", (av[1] - self.u).const() is not None and (av[1] - self.u).c <= self.cap - 6, i, "%s may write past the end of utf8_" % tx)
                st.mem[G] = av[1] - self.u; st.mem[X] = av[1] - self.u + r
            return [(st, r)]
        if n in ("read", "get") and "istream" in fid:
            k = av[1] if len(av) > 1 else N(1)
            if av and self.dst(av[0]) and n == "read":
                self.ob(F, st, "DEST", isinstance(k, L) and prove(st, self.s0 + self.n0 - av[0] - k), i, "%s may write past the space given" % tx)
                self.ob(F, st, "DENSE", prove(st, st.mem[W] - av[0]), i, "%s leaves a gap in what is delivered" % tx)
                st.x["req"] = k; st.x["reqat"] = av[0]; st.mem[W] = av[0]
                if isinstance(k, L): st.mem[W] = av[0] + k
            elif n == "get":
                st.x["req"] = N(1)
            return [(st, None)]
        if n == "gcount":
            r = E.fresh("gc", st, 0)
            if st.x.get("req") is not None: st.fact(st.x["req"] - r); st.mem[W] = self.s0 + r
            return [(st, r)]
        if n in ("file_get", "LexerInput", "get") and len(args) == 2 and isinstance(av[0], L) and isinstance(av[1], L) and self.dst(av[0]):
            s, k = av
            self.ob(F, st, "DEST", prove(st, self.s0 + self.n0 - s - k), i, "%s may write past the space given" % tx)
            r = E.fresh("got", st, 0)
            if n != "LexerInput": st.fact(k - r)           # (user code may say more than it was asked for)
            st.mem[W] = s + r
            if n == "LexerInput": st.x["delegated"] = True
            return [(st, r)]
        return None
    def new(self, F, st, i): return None
    def cond(self, F, st, v, i): return None
    def variant(self, st):
        g, e, ui, ul = st.mem[G], st.mem[X], st.mem.get(T("uidx_")), st.mem.get(T("ulen_"))
        if prove(st, g - e): return "full"
        if isinstance(ui, L) and isinstance(ul, L) and prove(st, ui - g) and prove(st, g - ui) and prove(st, e - ui - ul) and prove(st, ui + ul - e): return "kept"
        return "open"
    def havoc(self, F, s, mod, v):
        for p in mod:
            x = s.mem.get(p)
            if p[0] == "this" and isinstance(x, L): s.fact(x)
        s.x["variant"] = v
        s.fact(s.mem[G]); s.fact(N(self.cap) - s.mem[X])
        if v == "full": s.fact(s.mem[G] - s.mem[X])
        elif v == "kept": s.mem[G] = s.mem[T("uidx_")]; s.mem[X] = s.mem[T("uidx_")] + s.mem[T("ulen_")]
        s.x.pop("from", None)
    def templates(self, F, base, mod):
        out = []; E = self.s0 + self.n0
        ptr = [p for p in mod if isinstance(base.mem.get(p), L) and self.dst(base.mem[p])]
        loc = [p for p in mod if isinstance(base.mem.get(p), L) and not self.dst(base.mem[p]) and p[0] != "this" and p != W]
        out.append((("w",), lambda st: N(0) if isinstance(st.mem[W], L) and True else None))
        for p in ptr:
            out.append((("ptr", p), None))
            out.append((("wp", p), lambda st, p=p: st.mem[W] - st.mem[p])); out.append((("pw", p), lambda st, p=p: st.mem[p] - st.mem[W]))
            out.append((("lo", p), lambda st, p=p: st.mem[p] - self.s0))
            out.append((("hi", p), lambda st, p=p: E - st.mem[p]))
            for q in loc: out.append((("room", p, q), lambda st, p=p, q=q: E - st.mem[p] - st.mem[q])); out.append((("room2", p, q), lambda st, p=p, q=q: st.mem[p] + st.mem[q] - E))
        for q in loc:
            out.append((("nn", q), lambda st, q=q: st.mem[q])); out.append((("nl", q), lambda st, q=q: self.n0 - st.mem[q]))
            out.append((("wq", q), lambda st, q=q: E - st.mem[W] - st.mem[q])); out.append((("wq2", q), lambda st, q=q: st.mem[W] + st.mem[q] - E))
            for p in ptr: out.append((("kp", p, q), lambda st, p=p, q=q, t=base.mem[p] + base.mem[q] if isinstance(base.mem.get(q), L) else None: t - st.mem[p] - st.mem[q])); out.append((("kp2", p, q), lambda st, p=p, q=q, t=base.mem[p] + base.mem[q]: st.mem[p] + st.mem[q] - t))
            for q2 in [T("uidx_")]:
                if q2 in mod and isinstance(base.mem.get(q2), L):
                    t = base.mem[q] + base.mem[q2]
                    out.append((("sum", q, q2), lambda st, q=q, q2=q2, t=t: t - st.mem[q] - st.mem[q2])); out.append((("sum2", q, q2), lambda st, q=q, q2=q2, t=t: st.mem[q] + st.mem[q2] - t))
        ui = T("uidx_")
        out.append((("gi",), lambda st: st.mem[G] - st.mem[ui])); out.append((("ig",), lambda st: st.mem[ui] - st.mem[G]))
        out.append((("keptdone", "none"), lambda st: N(0) if st.x["variant"] != "full" else st.mem[T("ulen_")].mul(-1)))
        for q in loc: out.append((("keptdone", q), lambda st, q=q: N(0) if st.x["variant"] != "kept" else st.mem[q].mul(-1)))
        out.append((("u8",), lambda st: N(self.cap) - st.mem[T("uidx_")] - st.mem[T("ulen_")]))
        out.append((("whi",), lambda st: E - st.mem[W])); out.append((("wlo",), lambda st: st.mem[W] - self.s0))
        return out
    def holds(self, F, st, c, old):
        if c[1] is None: return self.dst(st.mem.get(c[0][1]))
        if c[0][0] == "keptdone": st.x["variant"] = self.variant(st)
        try: l = c[1](st)
        except (TypeError, AttributeError): return False
        return isinstance(l, L) and prove(st, l)
    def assume(self, F, st, c, old):
        if c[1] is None: st.mem[c[0][1]] = self.s0 + self.E.fresh("o"); st.mem[W] = self.s0 + self.E.fresh("wo") if not self.dst(st.mem[W]) else st.mem[W]; return
        try: l = c[1](st)
        except (TypeError, AttributeError): return
        if isinstance(l, L): st.fact(l)
    def back(self, F, st, h): pass
    def pending(self, F, st, i=None):
        """what utf8_ held was delivered, or the rest is what is recorded as pending"""
        g, e, ui, ul = st.mem[G], st.mem[X], st.mem.get(T("uidx_")), st.mem.get(T("ulen_"))
        full = prove(st, g - e)
        none = isinstance(ul, L) and prove(st, ul.mul(-1))
        kept = isinstance(ui, L) and isinstance(ul, L) and prove(st, ui - g) and prove(st, g - ui) and prove(st, ui + ul - e) and prove(st, e - ui - ul)
        if i is None: ok = kept or (full and none)
        else: ok = full                          # utf8_ is about to be overwritten
        self.ob(F, st, "KEEP", ok, i, "the bytes of a character that were not delivered are not exactly what is kept for the next read" if i is None else "%s overwrites bytes still pending" % F.fn.text(i))
    def finish(self, fn, st, ret):
        F = type("X", (), {"fn": fn})()
        self.ob(F, st, "COUNT", isinstance(ret, L) and prove(st, self.n0 - ret), None, "may report more than was asked for")
        if not st.x.get("delegated"): self.ob(F, st, "COUNT", isinstance(ret, L) and prove(st, st.mem[W] - self.s0 - ret) and prove(st, ret + self.s0 - st.mem[W]), None, "the count returned is not the number of bytes delivered")
        self.pending(F, st)

def analyse(P, fn, inline=None):
    H = Hooks(P)
    E = Aff(P, H, inline=inline or (lambda g: (g.cls == fn.cls and not (g.name in ("file_get", "get", "LexerInput") and len(g.params) == 2)) or (g.cls is None and g.file == fn.file and g.name != "utf8")))
    st = H.initial(E, fn)
    res = E.run(fn, st, None, 0, [H.s0, H.n0])
    for s, v in res: H.finish(fn, s, v)
    return E, H, res

def functions(P):
    """everything that delivers input into a destination it is given"""
    return [f for f in sorted(P.fns.values(), key=lambda f: (f.file, f.line, f.id)) if re.search(r"(::get|::file_get|::LexerInput)\((char \*), (unsigned long|size_t)\)", f.id) and f.cfg is not None and f.cls]

if __name__ == "__main__":
    import sys, time
    P = load(["headers", "flex", "lib"])
    for f in functions(P):
        t = time.time()
        E, H, res = analyse(P, f)
        bad = {r[2:] for r in E.reports if not r[1]}
        print("%-50s paths=%d obl=%d bad=%d %.2fs" % (f.id[:50], E.paths, len(E.reports), len(bad), time.time() - t))
        for b in sorted(bad): print("    ", b)

"""The matcher's buffer in the affine domain: where the zero that terminates the text was put, reads and writes of the buffer,
input read into it, shifts and reallocation. Used by C05, C06 and C07."""
from core import *
from aff import *

M = "reflex::AbstractMatcher"
T = lambda n: ("this", n)
SIZES = ["len_", "cur_", "pos_", "end_", "max_", "ind_", "blk_", "num_", "lno_", "cno_"]
PTRS = ["txt_", "lpb_", "bol_"]
BASE = {"buf_"}
# facts between members that hold whenever no operation is in progress
def inv():
    g = lambda st, n: st.mem.get(T(n))
    return {
        "pos_ <= end_": lambda st: g(st, "end_") - g(st, "pos_"),
        "end_ < max_": lambda st: g(st, "max_") - g(st, "end_") - 1,
        "blk_ <= BLOCK": lambda st: N(st.x["BLOCK"]) - g(st, "blk_"),
        "txt_ + len_ <= buf_ + end_": lambda st: g(st, "buf_") + g(st, "end_") - g(st, "txt_") - g(st, "len_"),
        "buf_ <= txt_": lambda st: g(st, "txt_") - g(st, "buf_"),
    }
INV = inv()

class Hooks:
    """rules reported: RESTORE (displaced character), BOUNDS (writes and reads of input stay in the buffer), ACCOUNT (what was read is added to
    end_), EOF (end of input concluded only after an empty read and a declined wrap)"""
    def __init__(self, P, block, shift=False):
        self.P = P; self.block = block; self.obl = []; self.ingrow = False
    # -- reports
    def ob(self, F, st, rule, ok, i, what, defer=False):
        f = F.fn
        top = F
        chain = []
        while getattr(top, "caller", None): chain.append(top.caller[0].fn.name); top = top.caller[0]
        key = "%s: %s: %s" % (rule, f.name, what)
        if not ok and defer: st.x["defer"] = st.x.get("defer", ()) + ((rule, key, f, i, what),); return
        self.E.report(rule, bool(ok), key, f.at(i), what + (" (reached from %s)" % " < ".join(chain) if chain else "") + (" [entered with the text terminated]" if self.entryD else ""))
    # -- initial states
    def initial(self, E, displaced):
        self.E = E; self.entryD = displaced
        st = St(); st.x = {"cs": "D" if displaced else "C", "BLOCK": self.block}
        B = E.fresh("buf"); st.mem[T("buf_")] = B; st.x["bases"] = frozenset(B.atoms())
        for n in SIZES: st.mem[T(n)] = E.fresh(n, st, 0)
        for n in PTRS: 
            o = E.fresh(n + "off", st, 0); st.mem[T(n)] = B + o
        st.fact(st.mem[T("buf_")] + st.mem[T("end_")] - st.mem[T("lpb_")])
        for n in INV: st.fact(INV[n](st))
        for n in ("own_", "eof_", "mat_"): st.mem[T(n)] = E.fresh(n, st, 0, 1)
        st.mem[T("got_")] = E.fresh("got", st)
        if displaced:
            st.mem[T("chr_")] = E.fresh("chr", st, 1, 255); st.x["disp"] = st.mem[T("txt_")] + st.mem[T("len_")]
        else:
            st.mem[T("chr_")] = N(0); st.x["disp"] = None
        return st
    # -- helpers
    def inbuf(self, st, a):
        """is this address derived from the buffer?"""
        if not isinstance(a, L): return False
        return any(v == 1 and k in st.x["bases"] for k, v in a.a)
    def apart(self, st, a, d):
        x = a - d
        return prove(st, x - 1) or prove(st, x.mul(-1) - 1) or x in st.neq or x.mul(-1) in st.neq
    def known_neq(self, st, x): return any(x == n or x.mul(-1) == n for n in st.neq)
    # -- memory
    def load(self, F, st, a, i, t):
        E = self.E
        if isinstance(a, L) and self.inbuf(st, a):
            if st.x["cs"] == "D":
                d = st.x["disp"]
                if (a - d).const() == 0 and not self.textread(st, a): ok = False
                else: ok = self.apart(st, a, d) or self.textread(st, a)
                self.ob(F, st, "RESTORE", ok, i, "reads %s which may be the terminated position" % F.fn.text(i))
            v = E.fresh("ch", st, -128, 127)
            st.x["content"] = dict(st.x.get("content", {})); st.x["content"][v.a[0][0]] = a
            return v
        v = E.typed(st, "ld", t)
        return v
    def textread(self, st, a):
        """the first character of the matched text (its terminator when the text is empty)"""
        return self.entry_text and a == st.mem[T("txt_")]
    def member(self, F, st, p, v, i):
        """chr_ used as a value"""
        if p != T("chr_") or st.x["cs"] != "D": return
        fn = F.fn; j = i; par = fn.par.get(j)
        while par is not None and fn.k(par) in STRIP: j = par; par = fn.par.get(j)
        if par is not None:
            nd = fn.n(par)
            if nd["k"] == "BinaryOperator" and nd["op"] in ("==", "!=", "<", ">", "<=", ">="): return
            if nd["k"] == "UnaryOperator" and nd["op"] == "!": return
            if nd["k"] == "BinaryOperator" and nd["op"] == "=" and F.deref(st, nd["c"][0]): return
            if nd["k"] in ("IfStmt", "WhileStmt") or (nd["k"] == "ConditionalOperator" and nd["c"][0] == j): return
        d = st.x["disp"]; at = (st.mem[T("buf_")] + st.mem[T("pos_")], st.mem[T("txt_")])
        ok = any(prove(st, d - a) and prove(st, a - d) for a in at)
        self.ob(F, st, "RESTORE", ok, i, "takes the displaced character for the one at the current position")
    def uchar(self, F, st, v):
        if v.const() is not None: return N(v.c & 255)
        n = v.a[0][0] if len(v.a) == 1 and v.c == 0 else None
        c = st.x.get("content", {})
        if n in c:
            w = self.E.fresh("uc", st, 0, 255); st.x["content"] = dict(c); st.x["content"][w.a[0][0]] = c[n]
            return w
        if prove(st, v, 3) and prove(st, N(255) - v, 3): return v
        return self.E.fresh("uc", st, 0, 255)
    def write(self, F, st, a, v, i):
        E = self.E
        if not self.inbuf(st, a): return None
        mem = st.mem
        # within the buffer
        end = mem[T("buf_")] + mem[T("max_")] - 1
        self.ob(F, st, "BOUNDS", isinstance(end, L) and (prove(st, end - a) or self.ingrow), i, "writes %s which may lie outside of the buffer" % F.fn.text(i))
        if st.x["cs"] == "D":
            d = st.x["disp"]
            if isinstance(v, L) and v == mem[T("chr_")] and (a - d).const() == 0:
                st.x["cs"] = "R"; return None                 # put back, chr_ not yet cleared
            if isinstance(v, L) and v == mem[T("chr_")]:
                # chr_ goes elsewhere than where it was taken from
                self.ob(F, st, "RESTORE", prove(st, a - d) and prove(st, d - a), i, "puts the displaced character back at %s, which is not where it was taken from" % F.fn.text(i))
                st.x["cs"] = "R"; return None
            self.ob(F, st, "RESTORE", self.apart(st, a, d), i, "overwrites %s while the text is terminated" % F.fn.text(i), True)
            return None
        if v == N(0):
            st.x["zeroed"] = a
            sv = st.x.get("saved")
            if sv is not None and (sv[0] - a).const() == 0 and st.mem[T("chr_")] == sv[1]:
                # displaced, unless the character was zero already
                s0 = st; s1 = st.copy()
                out = []
                if s0.eq(sv[1]): s0.x["cs"] = "C"; s0.mem[T("chr_")] = N(0); out.append(s0)
                if not prove(s1, sv[1]) : s1.neq += (sv[1],)
                else: s1.fact(sv[1] - 1)
                s1.x["cs"] = "D"; s1.x["disp"] = a; out.append(s1)
                return out
            if True:
                self.ob(F, st, "RESTORE", self.pastend(st, a), i, "terminates %s without saving the character there" % F.fn.text(i), True)
        return None
    def freshbuf(self, st, a):
        e = st.mem[T("end_")]
        return (isinstance(e, L) and e.const() == 0) or self.newbuf(st)
    def newbuf(self, st): return st.x.get("new", False)
    def pastend(self, st, a): return prove(st, a - st.mem[T("buf_")] - st.mem[T("end_")])
    def store(self, F, st, p, v, i):
        if p == T("chr_"):
            if isinstance(v, L) and v.const() == 0:
                if st.x["cs"] == "D": st.x["dropped"] = F.fn.at(i)
                st.x["cs"] = "C"; st.x["disp"] = None; st.x.pop("saved", None); st.mem[p] = N(0); return []if False else None
            c = st.x.get("content", {})
            n = v.a[0][0] if isinstance(v, L) and len(v.a) == 1 and v.c == 0 else None
            if st.x["cs"] == "D": self.ob(F, st, "RESTORE", False, i, "saves another character while one is displaced")
            if n in c: st.x["saved"] = (c[n], v)
            else: st.x.pop("saved", None)
            return None
        if p == T("buf_"):
            if isinstance(v, L):
                st.x["bases"] = st.x["bases"] | frozenset(k for k, c in v.a if c == 1)
                st.x["new"] = True
            return None
        if p == T("end_"): return self.set_end(F, st, v, i)
        if p == T("eof_"): return self.set_eof(F, st, v, i)
        return None
    def set_end(self, F, st, v, i):
        r = st.x.get("read")
        if r is not None and isinstance(v, L):
            at, n = r
            self.ob(F, st, "ACCOUNT", v == at + n, i, "end_ is set to something other than its value before the read plus the number of bytes read (%s)" % F.fn.text(i))
            st.x.pop("read")
        return None
    def set_eof(self, F, st, v, i):
        if isinstance(v, L) and v.const() == 0: return None
        ev = st.x.get("last", ())
        if isinstance(v, L) and v.const() == 1 and not st.x.get("inplace"):
            rd = st.x.get("lastread")
            ok = rd is not None and prove(st, rd.mul(-1))
            self.ob(F, st, "EOF", ok, i, "end of input is concluded without a preceding read that returned nothing", True)
            w = st.x.get("wrap")
            self.ob(F, st, "EOF", w is not None and prove(st, w.mul(-1)), i, "end of input is concluded without wrap() having declined to supply more", True)
        return None
    # -- calls
    def modset(self, fid):
        n = fid.split("(")[0].split("::")[-1]
        if n == "grow" and fid.startswith(M): return {T(x) for x in ("buf_", "txt_", "lpb_", "bol_", "cur_", "pos_", "end_", "ind_", "max_", "num_", "lno_", "cno_")}
        if n == "lineno" and "()" in fid: return {T(x) for x in ("lpb_", "bol_", "lno_", "cno_")}
        if n == "match" and "(int)" in fid: return {T(x) for x in SIZES + PTRS + ["buf_", "chr_", "got_", "eof_", "mat_", "cap_"]}
        if n in ("get",) and "(char *" in fid: return set()
        return None
    def call(self, F, st, i, fid, obj, args, av):
        E = self.E; mem = st.mem
        if fid is None: return None
        sig = fid; n = fid.split("(")[0].split("::")[-1]; this = obj == ("this",)
        cls = "::".join(fid.split("(")[0].split("::")[:-1])
        isbuf = lambda v: self.inbuf(st, v)
        if this and n == "grow":
            self.needC(F, st, i, "moves the buffer (grow) while the text is terminated")
            st.x.pop("read", None)
            need = av[0] if av and isinstance(av[0], L) else N(self.block)
            return [(self.grown(st, need), E.fresh("g", None))]
        if this and n == "get" and len(args) == 2 or (n == "get" and obj == T("in") and len(args) == 2):
            self.needC(F, st, i, "reads input into the buffer while the text is terminated")
            s, k = av
            self.ob(F, st, "BOUNDS", isinstance(s, L) and s == mem[T("buf_")] + mem[T("end_")], i, "input is read to %s, which is not where the buffered data ends" % F.fn.text(args[0]))
            room = mem[T("max_")] - mem[T("end_")]
            self.ob(F, st, "BOUNDS", isinstance(k, L) and prove(st, room - k), i, "up to %s bytes are read, which may be more than the room in the buffer" % F.fn.text(args[1]))
            r = E.fresh("read", st, 0)
            if isinstance(k, L): st.fact(k - r)
            st.x["read"] = (mem[T("end_")], r); st.x["lastread"] = r; st.x.pop("wrap", None)
            return [(st, r)]
        if this and n == "wrap":
            w = E.fresh("wrap", st, 0, 1); st.x["wrap"] = w
            return [(st, w)]
        if this and n == "match" and "(int)" in fid:
            out = self.initial2(st); return [(out, E.fresh("cap", out, 0))]
        if this and n == "lineno" and not args and F.fn.name != "lineno":
            o = E.fresh("lpb", None); mem[T("lno_")] = E.fresh("lno", st, 0); mem[T("cno_")] = E.fresh("cno", st, 0)
            mem[T("lpb_")] = mem[T("txt_")]
            if T("bol_") in mem and isinstance(mem[T("txt_")], L):
                b = E.fresh("bol", st); mem[T("bol_")] = b; st.x["bases"] |= {b.a[0][0]} if False else frozenset()
                # begin of the line: between the begin of the buffer and the text
                off = E.fresh("boff", st, 0); mem[T("bol_")] = mem[T("buf_")] + off; st.fact(mem[T("txt_")] - mem[T("bol_")])
            return [(st, mem[T("lno_")])]
        if n in ("memmove", "memcpy") and len(args) == 3:
            d, s, k = av
            if isbuf(d):
                self.needC(F, st, i, "shifts the buffer while the text is terminated")
                hi = mem[T("buf_")] + mem[T("max_")]
                if not self.ingrow: self.ob(F, st, "BOUNDS", isinstance(k, L) and prove(st, hi - d - k), i, "%s may reach past the end of the buffer" % F.fn.text(i))
                self.moved(F, st, d, s, k, i)
            elif isbuf(s):
                self.needC(F, st, i, "copies the buffer while the text is terminated")
                self.moved(F, st, d, s, k, i)
            return [(st, d if isinstance(d, L) else None)]
        if n == "memchr" and len(args) == 3 and isbuf(av[0]):
            p, _, k = av
            if st.x["cs"] == "D":
                ok = isinstance(k, L) and (prove(st, st.x["disp"] - p - k) or prove(st, p - st.x["disp"] - 1))
                self.ob(F, st, "RESTORE", ok, i, "searches the buffer while the text is terminated")
            r0 = st.copy(); out = [(r0, N(0))]
            s = st; off = E.fresh("at", s, 0)
            if isinstance(k, L): s.fact(k - off - 1)
            out.append((s, p + off))
            return out
        if n in ("realloc", "_aligned_realloc"):
            p = E.fresh("newbuf"); st.x["bases"] |= frozenset(p.atoms()); st.x["alloc"] = av[1]; st.x["src"] = av[0]
            return [(st, p)]
        if n == "posix_memalign":
            r = E.fresh("rc", st); mem[T("buf_")] = E.fresh("buf"); st.x["bases"] |= frozenset(mem[T("buf_")].atoms()); st.x["alloc"] = av[2]; st.x["new"] = True
            return [(st, r)]
        if n in ("free", "_aligned_free"): return [(st, None)]
        if n == "utf8" and len(args) == 2:
            # encoder: at least one, at most six bytes
            return [(st, E.fresh("u8", st, 1, 6))]
        k = re.match(r"_mm(\d*)_loadu?_si(\d+)$", n)
        if k and av and isbuf(av[0]):
            if st.x["cs"] == "D":
                w = int(k.group(2)) // 8
                self.ob(F, st, "RESTORE", prove(st, st.x["disp"] - av[0] - w) or prove(st, av[0] - st.x["disp"] - 1), i, "%s reads the buffer while the text is terminated" % F.fn.text(i))
            return [(st, None)]
        # anything else that is handed a pointer into the buffer
        if any(isbuf(v) for v in av) and (not this) and not (fid in self.P.fns and cls.startswith(M) and E.inline(self.P.fns[fid])):
            if st.x["cs"] == "D":
                p = next(v for v in av if isbuf(v)); j = av.index(p)
                k = av[j + 1] if j + 1 < len(av) and isinstance(av[j + 1], L) else None
                if k is None and j >= 1 and n in ("compare",): k = None
                ok = (k is not None and prove(st, st.x["disp"] - p - k)) or (p == mem[T("txt_")]) or (k is not None and p == st.x["disp"] and False)
                self.ob(F, st, "RESTORE", ok, i, "%s reads the buffer while the text is terminated" % F.fn.text(i))
            return [(st, E.typed(st, n, F.fn.n(i).get("t")))]
        return None
    def moved(self, F, st, d, s, k, i):
        if self.ingrow: st.x["moves"] = st.x.get("moves", ()) + ((d, s, k),)
    def needC(self, F, st, i, what):
        self.ob(F, st, "RESTORE", st.x["cs"] in ("C",), i, what)
        if st.x["cs"] != "C": st.x["cs"] = "C"; st.x["disp"] = None; st.mem[T("chr_")] = N(0)
    def grown(self, st, need):
        E = self.E; mem = st.mem; g = E.fresh("gap", st, 0)
        nb = E.fresh("buf"); ob = mem[T("buf_")]
        for n in ("cur_", "pos_", "end_", "ind_"):
            if isinstance(mem.get(T(n)), L):
                mem[T(n)] = mem[T(n)] - g; 
                st.fact(mem[T(n)]) if n in ("pos_", "end_") else None
        for n in PTRS:
            if isinstance(mem.get(T(n)), L): mem[T(n)] = nb + (mem[T(n)] - ob - g)
        st.fact(mem[T("txt_")] - nb)
        mem[T("buf_")] = nb; st.x["bases"] = st.x["bases"] | frozenset(nb.atoms())
        mem[T("num_")] = mem[T("num_")] + g; mem[T("max_")] = E.fresh("max", st, 0)
        st.fact(mem[T("max_")] - mem[T("end_")] - need - 1)
        st.x["gap"] = g
        return st
    def initial2(self, st):
        """state after a match: members anew, text not terminated"""
        s = self.initial(self.E, False) if False else st
        E = self.E
        B = E.fresh("buf"); s.mem[T("buf_")] = B; s.x["bases"] = s.x["bases"] | frozenset(B.atoms())
        for n in SIZES:
            if n != "blk_": s.mem[T(n)] = E.fresh(n, s, 0)
        for n in PTRS:
            o = E.fresh(n + "off", s, 0); s.mem[T(n)] = B + o
        for n in INV: s.fact(INV[n](s))
        for n in ("eof_", "mat_"): s.mem[T(n)] = E.fresh(n, s, 0, 1)
        s.mem[T("chr_")] = N(0); s.x["cs"] = "C"; s.x["disp"] = None
        return s
    def new(self, F, st, i):
        p = self.E.fresh("new"); st.x["bases"] |= frozenset(p.atoms()); st.x["alloc"] = None
        return p
    # -- conditions
    def cond(self, F, st, v, i): return None
    # -- loops
    def variant(self, st): return st.x["cs"]
    def havoc(self, F, s, mod, variant):
        E = self.E
        if T("buf_") in mod and isinstance(s.mem.get(T("buf_")), L): s.x["bases"] = s.x["bases"] | frozenset(s.mem[T("buf_")].atoms())
        for p in mod:
            if s.mem.get(p) is None or p[0] != "this": continue
            if p[1] in PTRS: s.mem[p] = s.mem[T("buf_")] + E.fresh(p[1] + "off")
            elif p[1] in SIZES: s.fact(s.mem[p])
            elif p[1] in ("own_", "eof_", "mat_"): s.fact(s.mem[p]); s.fact(N(1) - s.mem[p])
        for k in ("read", "lastread", "wrap", "saved"): s.x.pop(k, None)
        if T("chr_") in mod or variant != s.x["cs"]:
            s.x["cs"] = variant
            if variant == "D": s.mem[T("chr_")] = E.fresh("chr", s, 1, 255); s.x["disp"] = s.mem[T("txt_")] + s.mem[T("len_")]
            elif variant == "C": s.mem[T("chr_")] = N(0); s.x["disp"] = None
        elif variant == "D" and (T("txt_") in mod or T("len_") in mod or T("buf_") in mod) and F.fn.name != "lineno":
            s.x["disp"] = s.mem[T("txt_")] + s.mem[T("len_")]
    def templates(self, F, base, mod):
        out = []
        for n in INV: out.append((("inv", n), lambda st, n=n: INV[n](st)))
        g = lambda st, n: st.mem.get(T(n))
        for p in mod:
            if p[0] != "this" and isinstance(base.mem.get(p), L):
                v = base.mem[p]
                if self.inbuf(base, v):
                    # a pointer into the buffer, as an offset
                    out.append((("ptr", p), lambda st, p=p: N(0) if self.inbuf(st, st.mem[p]) else None))
                    out.append((("le txt", p), lambda st, p=p: g(st, "txt_") - st.mem[p]))
                    out.append((("le end", p), lambda st, p=p: g(st, "txt_") + g(st, "len_") - st.mem[p]))
                else:
                    out.append((("le end_", p), lambda st, p=p: g(st, "end_") - st.mem[p]))
                    out.append((("nonneg", p), lambda st, p=p: st.mem[p]))
        out.append((("lpb",), lambda st: g(st, "buf_") + g(st, "end_") - g(st, "lpb_") if isinstance(g(st, "lpb_"), L) else None))
        out.append((("txt0",), lambda st: g(st, "txt_") - g(st, "buf_") if isinstance(g(st, "txt_"), L) else None))
        out.append((("posle",), lambda st: (g(st, "txt_") - g(st, "buf_")) - g(st, "pos_") if isinstance(g(st, "txt_"), L) else None))
        out.append((("posge",), lambda st: g(st, "pos_") - (g(st, "txt_") - g(st, "buf_")) if isinstance(g(st, "txt_"), L) else None))
        out.append((("curtxt",), lambda st: g(st, "cur_") - (g(st, "txt_") - g(st, "buf_")) if isinstance(g(st, "txt_"), L) else None))
        out.append((("curtxt2",), lambda st: (g(st, "txt_") - g(st, "buf_")) - g(st, "cur_") if isinstance(g(st, "txt_"), L) else None))
        out.append((("endmax",), lambda st: g(st, "max_") - g(st, "end_")))
        bt = lambda st: g(st, "txt_") - g(st, "bol_") if isinstance(g(st, "bol_"), L) and isinstance(g(st, "txt_"), L) else None
        out.append((("boltxt",), bt)); out.append((("boltxt2",), lambda st: bt(st).mul(-1)))
        out.append((("posend",), lambda st: g(st, "pos_") - g(st, "end_")))
        return out
    def holds(self, F, st, c, old):
        if c[0][0] == "ptr":
            return c[1](st) is not None
        try: l = c[1](st)
        except (TypeError, AttributeError): return False
        return isinstance(l, L) and prove(st, l)
    def assume(self, F, st, c, old):
        if c[0][0] == "ptr":
            p = c[0][1]; st.mem[p] = st.mem[T("buf_")] + self.E.fresh("o", None); return
        try: l = c[1](st)
        except (TypeError, AttributeError): return
        if isinstance(l, L): st.fact(l)
    def back(self, F, st, h):
        # what was put off is due: the path ends here, the next iteration starts without it
        own = st.mem.get(T("own_"))
        if not (isinstance(own, L) and own.const() == 0 and st.x.get("new")):
            for rule, key, f, i, what in st.x.get("defer", ()): self.E.report(rule, False, key, f.at(i), what)
        if st.x["cs"] == "D":
            t = st.mem[T("txt_")] + st.mem[T("len_")]; d = st.x["disp"]
            self.ob(F, st, "RESTORE", prove(st, t - d) and prove(st, d - t), F.fn.body, "moves the text window while the text is terminated")
    # -- whole functions
    def finish(self, fn, st, ret):
        """obligations at the end of an operation"""
        F = type("X", (), {"fn": fn})()
        e = st.mem[T("end_")]; own = st.mem.get(T("own_"))
        emptied = isinstance(e, L) and e.const() == 0; inplace = isinstance(own, L) and own.const() == 0 and st.x.get("new")
        for rule, key, f, i, what in st.x.get("defer", ()):
            self.E.report(rule, bool(inplace or (emptied and rule == "RESTORE")), key, f.at(i), what)
        if st.x["cs"] == "D":
            t = st.mem[T("txt_")] + st.mem[T("len_")]; d = st.x["disp"]
            self.ob(F, st, "RESTORE", prove(st, t - d) and prove(st, d - t), fn.body, "leaves the text terminated at a place other than its end")
        if st.x["cs"] == "R": self.ob(F, st, "RESTORE", False, fn.body, "puts back the displaced character but keeps it as displaced")
        if st.x.get("dropped"):
            self.ob(F, st, "RESTORE", emptied or inplace, fn.body, "forgets the displaced character without putting it back")
        for n in INV:
            try: l = INV[n](st)
            except (TypeError, AttributeError): l = None
            self.ob(F, st, "INV", isinstance(l, L) and prove(st, l), fn.body, "%s need not hold afterwards" % n)
        if "read" in st.x: self.ob(F, st, "ACCOUNT", False, fn.body, "input that was read is not added to end_")

def analyse(P, fn, displaced, hooks=None, args=None):
    block = P.globals.get((M + "::Const::BLOCK", None))
    H = (hooks or Hooks)(P, 262144)
    H.entry_text = fn.d.get("const") or fn.name in ("chr", "wchr")
    E = Aff(P, H, inline=lambda g: (g.cls == M and "match" != g.name) or (g.cls is None and g.file == fn.file))
    H.E = E
    st = H.initial(E, displaced)
    av = []
    for p in fn.params:
        t = p["t"].replace("const ", "")
        if t.endswith("&"): av.append(("arg_" + p["d"],))
        elif t == "char *" and fn.name == "buffer":
            a = E.fresh("base"); st.x["bases"] |= frozenset(a.atoms()); av.append(a)
        else: av.append(E.typed(st, p["d"], t))
    st.x["inplace"] = False
    if fn.name == "grow" and av: H.need = av[0]; st.fact(av[0])
    res = E.run(fn, st, None, 0, av)
    for s, v in res: H.finish(fn, s, v)
    return E, H, res

if __name__ == "__main__":
    P = load(["headers"])
    import sys, time
    for f in sorted(P.fns.values(), key=lambda f: f.line):
        if "get(char *" in f.id: continue
        if f.cls != M or f.kind in ("ctor", "dtor", "copyctor", "copyassign") or f.cfg is None: continue
        if len(sys.argv) > 1 and f.name not in sys.argv[1:]: continue
        for d in (False, True):
            t = time.time()
            try: E, H, res = analyse(P, f, d)
            except AnalysisError as e: print(f.name, d, "ERR", e); continue
            bad = [r for r in E.reports if not r[1]]
            print("%-16s %s paths=%d obl=%d bad=%d %.2fs %s" % (f.name, "D" if d else "C", E.paths, len(E.reports), len(bad), time.time() - t, {s.x["cs"] for s, _ in res}))
            for b in sorted({b[2:] for b in bad}): print("     ", b)

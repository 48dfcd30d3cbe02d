"""File encodings. (1) Every function that delivers input into a room of a given size is analysed over linear facts: the bytes of a
character that did not fit are exactly what is kept (KEEP), and are delivered first, in order (PEND). (2) Code page tables are compared
with the published mappings (PAGE). (3) The reader is evaluated abstractly from construction over a file of symbolic bytes, per
encoding, byte order mark and class of unit (boxes of bytes): the sequence of code points handed to the UTF-8 encoder must be, bit for
bit, that of the encoding's standard (DECODE), and the size reported before reading equals the number of bytes delivered (SIZE)."""
from core import *
from ev import *
import ev, rd, codecs, itertools

NON = 0x200000

# ---------------------------------------------------------------- linear forms over input bits
def lin(v): return linear(v) if isinstance(v, BV) else None

class File:
    """a stream of bytes, each a box lo..hi, and what the hooks know of the C library"""
    def __init__(self, P, boxes, regular): self.P = P; self.boxes = boxes; self.regular = regular; self.codes = []
    def start(self, E, st):
        st.mem[("pos",)] = K(0, 64, 1)
        for n, (lo, hi) in enumerate(self.boxes): E.var(st, "b%d" % n, lo, hi, "unsigned char")
    def byte(self, E, st, n): lo, hi = st.rng["b%d" % n]; return var("b%d" % n, 0, lo, hi, 8, 0)
    def put(self, st, p, k, v):
        if isinstance(p, Ptr) and isinstance(p.off, int): st.mem[p.path + (p.off + k,)] = v; return True
        return False
    def etype(self, F, a):
        """element type a pointer argument has in the source"""
        fn = F.fn
        while True:
            nd = fn.n(a)
            if nd["k"] in CASTS and nd.get("ck") in ("BitCast", "NoOp", "ArrayToPointerDecay", "LValueToRValue"):
                a = nd["c"][0]
            elif nd["k"] == "ParenExpr": a = nd["c"][0]
            else: break
        return typ(re.sub(r"\s*(\[\d*\]|\*)$", "", nd.get("t", "char *")))
    def call(self, F, st, i, fid, obj, args):
        E = F.E; fn = F.fn; nd = fn.n(i)
        if fid is None: return None
        n = fid.split("(")[0].split("::")[-1]
        if fid.startswith("reflex::") and n == "utf8" and len(args) == 2:
            c, d = F.val(st, args[0]), F.val(st, args[1])
            if "const" in fid.split("(")[1]: return None
            out = []
            cuts = [(-(1 << 31), -1, 5), (0, 0x7F, 1), (0x80, 0x7FF, 2), (0x800, 0xFFFF, 3), (0x10000, 0x10FFFF, 4), (0x110000, (1 << 31) - 1, 5)]
            if not isinstance(c, BV): raise Undecided("code point unknown at " + fn.at(i))
            for lo, hi, l in cuts:
                if c.hi < lo or hi < c.lo: continue
                if not (lo <= c.lo and c.hi <= hi):
                    if c.sym is None: raise Undecided("length class of the code point unknown at " + fn.at(i))
                    s = st.copy(); nm, ad = c.sym; r = s.rng[nm]; s.rng[nm] = (max(r[0], lo - ad), min(r[1], hi - ad)); x = E.refresh(s, c)
                    if s.rng[nm][0] > s.rng[nm][1]: continue
                else: s = st.copy(); x = c
                if lo in (-(1 << 31), 0x110000): x = K(NON)
                t = len(self.codes); self.codes.append(x)
                for q in range(l):
                    if l == 1: v = conv(x, 8, 1)
                    else: v = BV([("tok%d" % t, q, b) for b in range(8)], 1)
                    if not self.put(s, d, q, v): raise Undecided("destination of the encoder unknown at " + fn.at(i))
                out.append((s, K(l, 64, 0)))
            return out
        if n == "fread":
            p, sz, ct = F.val(st, args[0]), F.val(st, args[1]), F.val(st, args[2])
            if not isinstance(p, Ptr) or not isinstance(p.off, int) or not isinstance(sz, BV) or not isinstance(ct, BV) or sz.const() is None or ct.const() is None: raise Undecided("read of unknown size at " + fn.at(i))
            pos = st.mem[("pos",)].const(); have = len(self.boxes) - pos; sz, ct = sz.const(), ct.const()
            items = min(ct, max(0, have) // sz) if sz else 0; k = min(max(0, have), sz * ct)
            w = E.wt(self.etype(F, args[0])) or (8, 1)
            for q in range(k): self.put(st, p, q, conv(self.byte(E, st, pos + q), *w))
            st.mem[("pos",)] = K(pos + k, 64, 1)
            if items < ct: st.mem[("feof",)] = K(1)
            return K(items, 64, 0)
        if n in ("fgetc", "getc"):
            pos = st.mem[("pos",)].const()
            if pos >= len(self.boxes): st.mem[("feof",)] = K(1); return K(-1)
            st.mem[("pos",)] = K(pos + 1, 64, 1)
            return conv(self.byte(E, st, pos), 32, 1)
        if n == "feof": return st.mem.get(("feof",), K(0))
        if n == "clearerr": st.mem.pop(("feof",), None); return K(0)
        if n == "rewind": st.mem[("pos",)] = K(0, 64, 1); return K(0)
        if n in ("ftello", "ftell"): return K(st.mem[("pos",)].const(), 64, 1)
        if n in ("fseeko", "fseek"):
            k, w = F.val(st, args[1]), F.val(st, args[2])
            if not isinstance(k, BV) or k.const() is None or not isinstance(w, BV) or w.const() not in (0, 1, 2): raise Undecided("seek to an unknown place at " + fn.at(i))
            st.mem[("pos",)] = K(k.const() + (0, st.mem[("pos",)].const(), len(self.boxes))[w.const()], 64, 1); return K(0)
        if n == "fileno": return K(5)
        if n == "fstat":
            p = F.val(st, args[1])
            if not self.regular: return K(-1)
            if isinstance(p, Ptr):
                st.mem[p.path + ("st_size",)] = K(len(self.boxes), 64, 1); st.mem[p.path + ("st_mode",)] = K(0o100644, 32, 0)
            return K(0)
        if n in ("memcpy", "memmove") and len(args) == 3:
            d, s, k = (F.val(st, a) for a in args)
            if not isinstance(d, Ptr) or not isinstance(s, Ptr) or not isinstance(k, BV) or k.const() is None or not isinstance(d.off, int) or not isinstance(s.off, int): raise Undecided("copy of unknown extent at " + fn.at(i))
            vs = [E.read(st, s.path + (s.off + q,)) for q in range(k.const())]
            w = E.wt(self.etype(F, args[0])) or (8, 1)
            for q, v in enumerate(vs): self.put(st, d, q, conv(v, *w) if isinstance(v, BV) else v)
            return [(st, d)]
        if n == "memset" and len(args) == 3:
            d, v, k = (F.val(st, a) for a in args)
            if isinstance(d, Ptr) and isinstance(d.off, int) and isinstance(k, BV) and k.const() is not None and k.const() < 4096:
                for q in range(k.const()): self.put(st, d, q, conv(v, 8, 1) if isinstance(v, BV) else TOP)
            return [(st, d)]
        return None

THIS = ("in",)
def find(P, name, pts, cls="reflex::Input"):
    l = [f for f in P.fns.values() if f.name == name and f.cls == cls and f.cfg and [p["t"] for p in f.params] == pts]
    return l[0] if l else None

def same(v, want, st, E):
    """is the value, bit for bit, what is expected (constant or (const, {bit: coef}))"""
    v = E.refresh(st, v); l = lin(v)
    if l is None: return None
    k, m = l; wk, wm = want
    def subst(k, m):
        out = {}
        for b, c in m.items():
            x = E.bit(st, b)
            if x.__class__ is int: k += x * c
            else: out[x] = out.get(x, 0) + c
        return k, {b: c for b, c in out.items() if c}
    return subst(k, m) == subst(wk, wm)

def bytebits(n, sh, lo=0, hi=8):
    return {("b%d" % n, 0, q): 1 << (q + sh) for q in range(lo, hi)}
def unit16(n, be): return (0, {**bytebits(n, 8 if be else 0), **bytebits(n + 1, 0 if be else 8)})
def unit32(n, be):
    m = {}
    for q in range(4): m.update(bytebits(n + q, 8 * (3 - q) if be else 8 * q))
    return (0, m)
def pair(n, be):
    h, l = unit16(n, be), unit16(n + 2, be); m = {}; k = 0x10000 - (0xD800 << 10) - 0xDC00
    for b, c in h[1].items(): m[b] = c << 10
    for b, c in l[1].items(): m[b] = c
    return (k, m)

# classes of 16 bit units as boxes (high byte, low byte), each decided by its leading bits
U16 = [("ASCII", (0, 0), (0x20, 0x3F)), ("U+00xx", (0, 0), (0x80, 0xFF)), ("2 bytes", (4, 7), (0, 255)), ("3 bytes", (8, 15), (0, 255)), ("BMP 8000", (0x80, 0xBF), (0, 255)), ("BMP C000", (0xC0, 0xCF), (0, 255)), ("BMP D000", (0xD0, 0xD7), (0, 255)),
       ("BMP E000", (0xE0, 0xEE), (0, 255)), ("BMP F000", (0xF0, 0xF7), (0, 255)), ("high", (0xD8, 0xDB), (0, 255)), ("low", (0xDC, 0xDF), (0, 255))]
U32 = [("ASCII", 0, 0, (0, 0), (0x20, 0x3F)), ("2 bytes", 0, 0, (1, 1), (0, 255)), ("3 bytes", 0, 0, (16, 31), (0, 255)), ("4 bytes", 0, (1, 1), (0, 255), (0, 255)), ("4 bytes, plane 8", 0, (8, 15), (0, 255), (0, 255)), ("plane 16", 0, (16, 16), (0, 255), (0, 255)),
       ("above 10FFFF", 0, (0x20, 0x3F), (0, 255), (0, 255)), ("above FFFFFF", (1, 1), (0, 15), (0, 255), (0, 255)), ("negative", (0x80, 0xFD), (0, 255), (0, 255), (0, 255))]

def oracle16(classes, be, base):
    """accepted code sequences (list of alternatives) for units of given classes starting at byte base"""
    def rec(k):
        if k >= len(classes): return [[]]
        c = classes[k]; n = base + 2 * k
        if c == "high":
            if k + 1 < len(classes) and classes[k + 1] == "low": return [[pair(n, be)] + r for r in rec(k + 2)]
            # a lone high surrogate: the unit after it may be taken with it
            return [[(NON, {})] + r for r in rec(k + 1)] + ([[(NON, {})] + r for r in rec(k + 2)] if k + 1 < len(classes) else [])
        if c == "low": return [[(NON, {})] + r for r in rec(k + 1)]
        return [[unit16(n, be)] + r for r in rec(k + 1)]
    return rec(0)

def u16box(c, be):
    for n, h, l in U16:
        if n == c: return [h, l] if be else [l, h]
def u32box(c, be):
    for u in U32:
        if u[0] == c:
            b = [x if isinstance(x, tuple) else (x, x) for x in u[1:]]
            return b if be else b[::-1]

BOM = {"utf16be": [0xFE, 0xFF], "utf16le": [0xFF, 0xFE], "utf32be": [0, 0, 0xFE, 0xFF], "utf32le": [0xFF, 0xFE, 0, 0], "utf8": [0xEF, 0xBB, 0xBF]}

def scenarios(enc):
    """(name, BOM, requested encoding, bytes as boxes, accepted code sequences; None for bytes that pass unchanged)"""
    out = []
    if enc in ("utf16be", "utf16le"):
        be = enc == "utf16be"
        for bom in (True, False):
            pre = [(b, b) for b in BOM[enc]] if bom else []
            base = len(pre); names = [u[0] for u in U16]
            seqs = [[a] for a in names] + [[a, b] for a in ("ASCII", "2 bytes", "BMP 8000", "high", "low") for b in ("ASCII", "3 bytes", "high", "low")] + [["ASCII", "high", "low"], ["high", "low", "ASCII"], ["high", "low", "high", "low"], ["3 bytes", "high", "low"], ["high", "ASCII", "high", "low"], ["low", "2 bytes", "ASCII"]] + [[]]
            for q in seqs:
                bx = [b for c in q for b in u16box(c, be)]
                # without a mark the first byte is one that starts none, or is followed by one that ends it
                firsts = [None] if bom or be or not bx else [(64, 127), (0, 0)] + ([(0xEF, 0xEF)] if bx[1] != (0x80, 0xBF) else []) if bx[1] != (0, 0) else [bx[0] if bx[0] != (0x80, 0xFF) else (0x80, 0xBF)]
                for fb in firsts:
                    b2 = bx if fb is None else [fb] + bx[1:]
                    out.append(("%s%s %s%s" % (enc, " with BOM" if bom else "", "+".join(q), " first byte %02X" % fb[0] if fb else ""), enc if not bom else None, pre + b2, oracle16(q, be, base)))
    elif enc in ("utf32be", "utf32le"):
        be = enc == "utf32be"; names = [u[0] for u in U32]
        for bom in (True, False):
            pre = [(b, b) for b in BOM[enc]] if bom else []; base = len(pre)
            for q in [[a] for a in names] + [["ASCII", "4 bytes"], ["4 bytes", "negative", "ASCII"], ["above 10FFFF", "3 bytes"], []]:
                bx = [b for c in q for b in u32box(c, be)]
                if not bom and bx and bx[0][1] - bx[0][0] > 100: bx = ([(64, 127)] if bx[0] == (0, 255) else [(0x80, 0x8F)]) + bx[1:]
                out.append(("%s%s %s" % (enc, " with BOM" if bom else "", "+".join(q)), enc if not bom else None, pre + bx,
                            [[(NON, {}) if c in ("above 10FFFF", "above FFFFFF", "negative") else unit32(base + 4 * k, be) for k, c in enumerate(q)]]))
    elif enc == "latin":
        for q in [[], [(0x20, 0x3F)], [(0x80, 0xBF)], [(0xC0, 0xDF)], [(0x20, 0x3F), (0x80, 0xBF)], [(0xE0, 0xEE), (0x20, 0x3F), (0xC0, 0xC7)], [(0xEF, 0xEF), (0xBB, 0xBB), (0x20, 0x3F)], [(0xFE, 0xFE), (0x80, 0xBF)], [(0, 0), (0, 0), (0x20, 0x3F), (0x80, 0xBF), (0x20, 0x3F)], [(0xFF, 0xFF)]]:
            out.append(("latin %s" % (q,), enc, q, [[(0, bytebits(k, 0)) for k in range(len(q))]]))
    else:
        for bom in (True, False):
            pre = [(b, b) for b in BOM["utf8"]] if bom else []
            for q in [[], [(0x20, 0x3F)], [(0x80, 0xBF), (0xC0, 0xDF)], [(0x20, 0x3F)] * 5] + ([] if bom else [[(0, 0)], [(0, 0), (0x20, 0x3F)], [(0, 0), (0, 0), (0x20, 0x3F)], [(0, 0), (0, 0), (0xFE, 0xFE)], [(0, 0), (0, 0), (0x20, 0x3F), (0x20, 0x3F), (0x20, 0x3F)], [(0xEF, 0xEF), (0x80, 0x8F), (0x80, 0xBF)],
                       [(0xEF, 0xEF), (0xBB, 0xBB)], [(0xEF, 0xEF), (0xBB, 0xBB), (0x80, 0x8F)], [(0xEF, 0xEF)], [(0xFE, 0xFE), (0x20, 0x3F)], [(0xFE, 0xFE)], [(0xFF, 0xFF), (0x20, 0x3F), (0, 255)]]):
                out.append(("plain%s %s" % (" with UTF-8 BOM" if bom else "", q), None, pre + q, ("bytes", len(pre))))
    return out

def construct(E, P, st, ctor, fenc, pg):
    args = {"FILE *": Ptr(("FILE",), 0)}
    a = []
    for p in ctor.params:
        t = typ(p["t"])
        if t.endswith("_IO_FILE *") or t == "FILE *" : a.append(Ptr(("FILE",), 0))
        elif "*" in t: a.append(pg)
        else: a.append(K(fenc, *E.wt(p["t"])))
    return E.run(ctor, st, a, THIS)

def deliver(E, get, st, room):
    """get() repeatedly until it returns 0 -> list of (state, number of bytes in ("dst",0..))"""
    done = []; work = [(st, 0, 0)]
    while work:
        s, n, tries = work.pop()
        if tries > 12: raise Undecided("input does not end")
        for s2, r in E.run(get, s, [Ptr(("dst",), n), K(room, 64, 0)], THIS):
            if not isinstance(r, BV) or r.const() is None: raise Undecided("number of bytes delivered is unknown")
            if r.const() == 0: done.append((s2, n))
            else: work.append((s2, n + r.const(), tries + 1))
    return done

def tokens(E, st, H, n):
    """delivered bytes as a list of values: whole characters where the encoder was used"""
    out = []; k = 0
    while k < n:
        v = E.read(st, ("dst", k)); b = v.bits[0] if isinstance(v, BV) else None
        if b.__class__ is tuple and b[0].startswith("tok"):
            t = b[0]; c = H.codes[int(t[3:])]
            l = 0
            while k + l < n:
                x = E.read(st, ("dst", k + l))
                if not isinstance(x, BV) or x.bits[0] != (t, l, 0): break
                l += 1
            out.append(("code", c, l)); k += max(1, l)
            if l == 0: out[-1] = ("torn", c, b[1])
        else: out.append(("byte", conv(v, 8, 0) if isinstance(v, BV) else None)); k += 1
    return out

def u8len(c): return 1 if c < 0x80 else 2 if c < 0x800 else 3 if c < 0x10000 else 4 if c <= 0x10FFFF else 5

def matches(E, st, toks, seq):
    if len(toks) != len(seq): return False
    for t, w in zip(toks, seq):
        if t[0] == "torn" or t[1] is None: return False
        if not same(t[1], w, st, E): return False
        if t[0] == "code" and not (u8len(t[1].lo) == u8len(t[1].hi) == t[2]): return False
        if t[0] == "byte" and t[1].hi > 127: return False
    return True

def show(toks):
    return " ".join("%s:%s" % (t[0], t[1]) for t in toks) or "nothing"

def decode(R, P, enc, room=64):
    ctor = [f for f in P.fns.values() if f.cls == "reflex::Input" and f.name == "Input" and f.cfg and len(f.params) == 3]
    get = find(P, "get", ["char *", "size_t"]) or find(P, "get", ["char *", "unsigned long"]); size = find(P, "size", [])
    if len(ctor) != 1 or get is None or size is None: raise AnalysisError("reader of files not found")
    ctor = ctor[0]; codes = encodings(P); nskip = 0
    def one(name, req, boxes, want, regular, depth=0):
        H = File(P, boxes, regular); E = Ev(P, call=H.call); E.strict = True; st = State(); H.start(E, st); got = []
        try:
            for s0, _ in construct(E, P, st, ctor, codes[req] if req else codes["plain"], K(0, 64, 0)):
                sz = []
                for s1, r in E.run(size, s0.copy(), [], THIS): sz.append(r.const() if isinstance(r, BV) else None)
                for s2, n in deliver(E, get, s0, room):
                    toks = tokens(E, s2, H, n)
                    if want and want[0] == "bytes":
                        ok = n == len(boxes) - want[1] and all(t[0] == "byte" and same(t[1], (0, bytebits(want[1] + k, 0)), s2, E) for k, t in enumerate(toks))
                    else: ok = any(matches(E, s2, toks, w) for w in want)
                    got.append((ok, toks, sz, n))
        except Undecided as e:
            # smaller boxes: bytes below and from 0x80 apart, then the corners only (which can refute, but not establish)
            if depth >= 2: R.note("%s: not decided: %s" % (name, e)); return
            R.note("%s: taken apart: %s" % (name, e)); wide = [k for k, (l, h) in enumerate(boxes) if l != h][-4:]
            parts = [[]]
            for k, (l, h) in enumerate(boxes):
                if k not in wide: c = [(l, h)] if depth == 0 else [(l, l)]
                elif depth == 0: c = [(l, 127), (128, h)] if l < 128 <= h else [(l, h)]
                else: c = [(l, l), (h, h)]
                parts = [q + [x] for q in parts for x in c]
            for q in parts: one(name, req, q, want, regular, depth + 1)
            return
        for ok, toks, sz, n in got:
            R.check("DECODE", ok, "%s as %s" % (name, req or "detected"), get.where(), "reading %s (%s file) delivers %s" % (name, "regular" if regular else "other", show(toks)))
            R.check("SIZE", len(sz) == 1 and sz[0] == n, "size of %s" % name, size.where(), "the size reported for %s (%s file) is %s, %d bytes are delivered" % (name, "regular" if regular else "other", sz, n))
    for name, req, boxes, want in scenarios(enc):
        for regular in (True, False): one(name, req, boxes, want, regular)
    return nskip

def encodings(P):
    out = {}
    for (n, s), g in P.globals.items():
        m = re.match(r"reflex::Input::file_encoding::(\w+)$", n)
        if m and isinstance(g.get("val"), int): out[m.group(1)] = g["val"]
    return out

# ---------------------------------------------------------------- code pages
CODEC = {"macroman": "mac_roman", "ebcdic": "cp037", "koi8_ru": "koi8_u"}
IBM = dict(zip(range(1, 32), [0x263A, 0x263B, 0x2665, 0x2666, 0x2663, 0x2660, 0x2022, 0x25D8, 0x25CB, 0x25D9, 0x2642, 0x2640, 0x266A, 0x266B, 0x263C, 0x25BA, 0x25C4, 0x2195, 0x203C, 0xB6, 0xA7, 0x25AC, 0x21A8, 0x2191, 0x2193, 0x2192, 0x2190, 0x221F, 0x2194, 0x25B2, 0x25BC]))
IBM[0x7F] = 0x2302
KOI8RU = {0x93: 0x201C, 0x96: 0x201D, 0x97: 0x2014, 0x98: 0x2116, 0x99: 0x2122, 0x9B: 0xBB, 0x9C: 0xAE, 0x9D: 0xAB, 0x9F: 0xA4, 0xAE: 0x45E, 0xBE: 0x40E}
INVARIANT = set(" .<(+&*);-/,%_>?:'=\"") | set("ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789")

def page(enc):
    """byte -> set of accepted code points (None: not assigned by the standard)"""
    out = {}
    for b in range(256):
        try: x = {ord(bytes([b]).decode(CODEC.get(enc, enc)))}
        except UnicodeDecodeError: x = None
        if x and enc.startswith("cp4") and b in IBM: x = x | {IBM[b]}
        if enc.startswith("cp8") and b in IBM: x = x | {IBM[b]}
        if enc == "koi8_ru" and b in KOI8RU: x = {KOI8RU[b]}
        if enc == "macroman" and b == 0x0D: x = {0x0A}         # documented translation
        if enc == "macroman" and b == 0xDB: x = {0x20AC, 0xA4}   # before and after the Euro
        if enc == "ebcdic" and chr(min(x)) not in INVARIANT and b not in (0x15, 0x25): x = None    # national variants differ here
        if enc == "ebcdic" and b in (0x15, 0x25): x = {0x0A, 0x85}
        if enc == "ebcdic" and b < 0x40 and b not in (0x15, 0x25): x = {ord(bytes([b]).decode("cp037"))}
        out[b] = x
    return out

def pages(R, P, enc):
    """all 256 bytes of one code page, through the reader"""
    ctor, get, size = reader(P); codes = encodings(P)
    if enc in CODEC or True:
        try: want = page(enc)
        except LookupError: R.note("no reference for " + enc); return
    order = [0x41] + [b for b in range(256) if b != 0x41]
    for lead in [[0x41], [0xEF, 0x41], [0xFE, 0x41]]:
        bs = order if lead == [0x41] else lead
        H = File(P, [(b, b) for b in bs], False); E = Ev(P, call=H.call); E.strict = True; st = State(); H.start(E, st)
        try:
            for s0, _ in construct(E, P, st, ctor, codes[enc], K(0, 64, 0)):
                sz = [r.const() if isinstance(r, BV) else None for s1, r in E.run(size, s0.copy(), [], THIS)]
                for s2, n in deliver(E, get, s0, 1200):
                    toks = tokens(E, s2, H, n)
                    R.check("PAGE", len(toks) == len(bs) and all(t[0] != "torn" for t in toks), "%s: number of characters%s" % (enc, "" if len(bs) > 9 else " lead %02X" % bs[0]), get.where(), "%d bytes in %s are delivered as %d characters" % (len(bs), enc, len(toks)))
                    for b, t in zip(bs, toks):
                        got = t[1].const() if isinstance(t[1], BV) else None
                        R.check("PAGE", want[b] is None or got in want[b], "%s: byte %02X" % (enc, b), get.where(), "byte %02X of %s becomes %s, not %s" % (b, enc, "U+%04X" % got if got is not None else t[1], "/".join("U+%04X" % x for x in sorted(want[b] or []))))
                    R.check("SIZE", len(sz) == 1 and sz[0] == n, "size of %s" % enc, size.where(), "the size reported for %d bytes of %s is %s, %d bytes are delivered" % (len(bs), enc, sz, n))
        except Undecided as e:
            if E.nullread: R.bad("PAGE", "%s: page is set" % enc, E.nullread, "no page is set for %s, a null page is read" % enc)
            R.note("%s: not decided: %s" % (enc, e))

def custom(R, P):
    """a page given by the user, its entries symbolic"""
    ctor, get, size = reader(P); codes = encodings(P)
    if "custom" not in codes: return
    cls = [("ASCII", 0, 0x7F), ("2 bytes", 0x80, 0x7FF), ("3 bytes", 0x800, 0xFFFF)]
    for lead in (0x41, 0xC0, 0xEF, 0x00):
        for q in itertools.product(cls, repeat=2):
            bs = [lead, 0x9F]; vals = {}
            H = File(P, [(b, b) for b in bs], False); E = Ev(P, call=H.call); E.strict = True; st = State(); H.start(E, st)
            for b, (n, lo, hi) in zip(bs, q): E.var(st, "p%d" % b, lo, hi, "unsigned short"); st.mem[("page", b)] = var("p%d" % b, 0, lo, hi, 16, 0)
            try:
                for s0, _ in construct(E, P, st, ctor, codes["custom"], Ptr(("page",), 0)):
                    sz = [r.const() if isinstance(r, BV) else None for s1, r in E.run(size, s0.copy(), [], THIS)]
                    for s2, n in deliver(E, get, s0, 64):
                        toks = tokens(E, s2, H, n)
                        w = [(0, {("p%d" % b, 0, k): 1 << k for k in range(16)}) for b in bs]
                        R.check("DECODE", matches(E, s2, toks, w), "custom page, byte %02X: %s" % (lead, "+".join(x[0] for x in q)), get.where(), "reading bytes %s with a custom page whose entries take %s delivers %s" % (bs, "+".join(x[0] for x in q), show(toks)))
                        R.check("SIZE", len(sz) == 1 and sz[0] == n, "size of custom page, byte %02X: %s" % (lead, "+".join(x[0] for x in q)), size.where(), "the size reported for bytes %s with a custom page (%s) is %s, %d bytes are delivered" % (bs, "+".join(x[0] for x in q), sz, n))
            except Undecided as e:
                if E.nullread: R.bad("DECODE", "custom page is used", E.nullread, "a custom page was given, yet a null page is read")
                R.note("custom: not decided: %s" % e)

def wide(R, P):
    """wide strings: units are 32 bits here, surrogate pairs are combined as well"""
    get, size = reader(P)[1:]
    ctor = [f for f in P.fns.values() if f.cls == "reflex::Input" and f.name == "Input" and f.cfg and len(f.params) == 1 and "wchar_t *" in f.params[0]["t"]]
    if len(ctor) != 1: raise AnalysisError("reader of wide strings not found")
    cl = {"ASCII": (1, 0x7F), "2 bytes": (0x80, 0x7FF), "3 bytes": (0x800, 0xD7FF), "E000": (0xE000, 0xFFFF), "4 bytes": (0x10000, 0x10FFFF), "high": (0xD800, 0xDBFF), "low": (0xDC00, 0xDFFF), "above": (0x110000, 0x7FFFFFFF)}
    seqs = [[a] for a in cl] + [[a, b] for a in ("ASCII", "3 bytes", "high", "low", "4 bytes") for b in ("ASCII", "high", "low")] + [["ASCII", "high", "low", "ASCII"], ["high", "high", "low"], ["low", "high", "low"], []]
    def one(q, bx, depth=0):
        H = File(P, [], False); E = Ev(P, call=H.call); E.strict = True; st = State(); H.start(E, st); got = []
        for k, c in enumerate(q):
            lo, hi = bx[k]; v = var("w%d" % k, 0, lo, hi, 32, 1)
            st.rng["w%d" % k] = (lo, hi)
            if c in ("high", "low") and (lo, hi) == cl[c]: v = BV([("w%d" % k, 0, j) for j in range(10)] + [(lo >> j) & 1 for j in range(10, 32)], 1)
            st.mem[("ws", k)] = v
        st.mem[("ws", len(q))] = K(0)
        def rec(k):
            if k >= len(q): return []
            if q[k] == "high" and k + 1 < len(q) and q[k + 1] == "low":
                m = {("w%d" % k, 0, j): 1 << (j + 10) for j in range(10)}; m.update({("w%d" % (k + 1), 0, j): 1 << j for j in range(10)})
                return [(0x10000, m)] + rec(k + 2)
            if q[k] in ("high", "low", "above"): return [(NON, {})] + rec(k + 1)
            return [(0, {("w%d" % k, 0, j): 1 << j for j in range(21)})] + rec(k + 1)
        try:
            for s0, _ in E.run(ctor[0], st, [Ptr(("ws",), 0)], THIS):
                sz = [r.const() if isinstance(r, BV) else None for s1, r in E.run(size, s0.copy(), [], THIS)]
                for s2, n in deliver(E, get, s0, 64):
                    toks = tokens(E, s2, H, n); got.append((matches(E, s2, toks, rec(0)), toks, sz, n))
        except Undecided as e:
            if depth: R.note("wide string %s: not decided: %s" % ("+".join(q), e)); return
            R.note("wide string %s: corners only: %s" % ("+".join(q), e)); parts = [[]]
            for l, h in bx: parts = [x + [(y, y)] for x in parts for y in (l, h)]
            for x in parts: one(q, x, 1)
            return
        for ok, toks, sz, n in got:
            R.check("DECODE", ok, "wide string %s" % "+".join(q), get.where(), "reading a wide string of %s delivers %s" % ("+".join(q), show(toks)))
            R.check("SIZE", len(set(sz)) >= 1 and n in sz, "size of wide string %s" % "+".join(q), size.where(), "the size reported for a wide string of %s is %s, %d bytes are delivered" % ("+".join(q), sz, n))
    for q in seqs: one(q, [cl[c] for c in q])

def reader(P):
    ctor = [f for f in P.fns.values() if f.cls == "reflex::Input" and f.name == "Input" and f.cfg and len(f.params) == 3]
    get = find(P, "get", ["char *", "size_t"]) or find(P, "get", ["char *", "unsigned long"]); size = find(P, "size", [])
    if len(ctor) != 1 or get is None or size is None: raise AnalysisError("reader of files not found")
    return ctor[0], get, size

def check(R):
    R.rule("KEEP", "a function that delivers input keeps exactly the bytes of a character it did not deliver", 20)
    R.rule("PEND", "bytes kept are delivered first, in order, none twice", 20)
    R.rule("PAGE", "each byte of a code page becomes the code point its standard assigns", 6000)
    R.rule("DECODE", "the code points of a file or wide string are those its encoding's standard assigns to the bytes, for every byte in the box", 500)
    R.rule("SIZE", "the size reported is the number of bytes delivered", 500)
    P = load(["headers", "flex", "lib"])
    R.assumption("C library streams return what they hold in order; published code page mappings are those of the Python codecs; EBCDIC is held to its invariant characters")
    codes = encodings(P)
    if not codes: raise AnalysisError("file encodings not found")
    tests = [("keep", f) for f in rd.functions(P)] + [("dec", e) for e in ("utf16le", "utf16be", "utf32be", "utf32le", "latin", "plain")] + [("page", e) for e in codes if e not in BOM and e not in ("plain", "latin", "custom")] + [("custom", None), ("wide", None)]
    def one(S, t):
        k, x = t
        if k == "keep":
            E, H, res = rd.analyse(P, x)
            for rule, ok, key, where, what in E.reports:
                if rule in ("KEEP", "PEND"): S.check(rule, ok, key, where, what)
        elif k == "dec": decode(S, P, x)
        elif k == "page": pages(S, P, x)
        elif k == "custom": custom(S, P)
        else: wide(S, P)
    R.parallel(one, tests)
    R.units = P.tus

if __name__ == "__main__":
    import sys, time
    from runner import Report
    P = load(["headers", "lib"]); R = Report("C09")
    for r in ("DECODE", "SIZE", "PAGE"): R.rule(r, "")
    for f, a in [(custom, None), (wide, None)] + [(pages, e) for e in ("cp1252", "koi8_ru")] + [(decode, e) for e in ("utf16be", "utf16le", "utf32be", "utf32le", "latin", "plain")]:
        t = time.time(); n = len(R.obl); f(R, P, a) if a else f(R, P); print(f.__name__, a, len(R.obl) - n, "%.2f" % (time.time() - t))
    for v in R.viol: print(v["where"], v["what"][:300])
    for n in R.notes[:20]: print(n)

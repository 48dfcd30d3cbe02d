"""UTF-8 layout. The encoder and the decoder are evaluated abstractly: the code point, or every input byte, is a symbolic bit
vector confined to an interval that comparisons split, so that each resulting state covers all inputs of a box. For every state the
bytes stored must be bit for bit the standard's bytes of that code point, the length the standard's length; the code returned by the
decoder must be bit for bit the code of the sequence, ill-formed sequences must give the error value, and a byte is only read
once the previous one cannot have been the terminator. winput() is evaluated the same way over a symbolic input stream, wunput()
must put back what the encoder produced. All tests of masked bytes and all length formulas of the library must agree with the layout."""
from core import *
from ev import *

ENCF = "reflex::utf8(int, char*)"; DECF = "reflex::utf8(const char*, const char**)"
NON = 0x200000

def find(P, name, nparm, pred):
    l = [f for f in P.fns.values() if f.name == name and len(f.params) == nparm and f.cfg and pred(f)]
    if len(l) != 1: raise AnalysisError("cannot identify function %s: %d candidates" % (name, len(l)))
    return l[0]

def enc_bits(n, i):
    """standard bits of byte i (bit 0 first) of an n byte sequence for code point variable c: constants or index of code bit"""
    if n == 1: return [("c", 0, k) for k in range(7)] + [0]
    if i == 0:
        sh = 6 * (n - 1); free = 7 - n
        return [("c", 0, sh + k) for k in range(free)] + [0] + [1] * n
    sh = 6 * (n - 1 - i)
    return [("c", 0, sh + k) for k in range(6)] + [0, 1]

def fix(E, st, bits): return [E.bit(st, b) if isinstance(b, tuple) else b for b in bits]

BOUNDS = [(0, 0x7F, 1), (0x80, 0x7FF, 2), (0x800, 0xFFFF, 3), (0x10000, 0x10FFFF, 4)]
# well-formed byte boxes: lead range, second byte range
BOXES = [(0x00, 0x7F, None), (0xC2, 0xDF, (0x80, 0xBF)), (0xE0, 0xE0, (0xA0, 0xBF)), (0xE1, 0xEF, (0x80, 0xBF)), (0xF0, 0xF0, (0x90, 0xBF)), (0xF1, 0xF3, (0x80, 0xBF)), (0xF4, 0xF4, (0x80, 0x8F))]

def standard(r):
    """classify a box of byte ranges: (length, well formed) or (None, False); r: list of ranges, first is the lead"""
    for lo, hi, second in BOXES:
        if lo <= r[0][0] and r[0][1] <= hi:
            n = 1 if second is None else 2 if lo < 0xE0 else 3 if lo < 0xF0 else 4
            if n == 1: return 1, True
            if len(r) < 2: return None, None
            if second[0] <= r[1][0] and r[1][1] <= second[1]: pass
            elif r[1][1] < second[0] or r[1][0] > second[1]: return n, False
            else: return None, None
            for k in range(2, n):
                if len(r) <= k: return None, None
                if 0x80 <= r[k][0] and r[k][1] <= 0xBF: continue
                if r[k][1] < 0x80 or r[k][0] > 0xBF: return n, False
                return None, None
            return n, True
    if any(not (r[0][1] < lo or r[0][0] > hi) for lo, hi, s in BOXES): return None, None
    return 0, False

def encoder(R, P, unre):
    f = find(P, "utf8", 2, lambda f: f.params[0]["t"] == "int" and f.params[1]["t"].endswith("char *"))
    top = [(lo, hi, n) for lo, hi, n in BOUNDS]
    if unre: top = top[:3] + [(0x10000, 0x1FFFFF, 4), (0x200000, 0x3FFFFFF, 5), (0x4000000, 0x7FFFFFFF, 6)]
    for lo, hi, n in top:
        E = Ev(P); E.strict = True; st = State(); v = E.var(st, "c", lo, hi, "int")
        for s, r in E.run(f, st, [v, Ptr(("out",), 0)]):
            rng = "U+%X..U+%X" % s.rng["c"]; key = "encode U+%X%s" % (lo, " unrestricted" if unre else "")
            R.check("ENC", isinstance(r, BV) and r.const() == n, key + " length", f.where(), "encoding %s returns length %s, not %d" % (rng, r, n))
            got = {q[1]: x for q, x in s.mem.items() if q[0] == "out"}
            R.check("ENC", set(got) == set(range(n)), key + " bytes", f.where(), "encoding %s writes bytes at %s, not 0..%d" % (rng, sorted(got), n - 1))
            for i in range(n):
                b = got.get(i); want = fix(E, s, enc_bits(n, i))
                have = fix(E, s, conv(b, 8, 0).bits) if isinstance(b, BV) else None
                R.check("ENC", have == want, key + " byte %d" % i, f.where(), "byte %d of the encoding of %s is not the standard's: %s, expected %s" % (i, rng, show(have), show(want)))
    return f

def show(b):
    return "unknown" if b is None else "".join(str(x) if isinstance(x, int) else "?" if x is None else "%s%d" % (x[0], x[2]) + ("+%x" % x[1] if x[1] else "") + " " for x in reversed(b))

def code_bits(n):
    """standard code bits in terms of byte variables b0.."""
    if n == 1: bits = [("b0", 0, k) for k in range(7)]
    else:
        bits = []
        for i in range(n - 1, 0, -1): bits += [("b%d" % i, 0, k) for k in range(6)]
        bits += [("b0", 0, k) for k in range(7 - n)]
    return bits + [0] * (32 - len(bits))

def decoder(R, P):
    f = find(P, "utf8", 2, lambda f: f.params[0]["t"] == "const char *" and f.params[1]["t"].endswith("**"))
    over = []
    def unk(E, st, p, t):
        if p[0] == "in" and isinstance(p[1], int):
            i = p[1]
            if i < 0 or i > 5: over.append((i, dict(st.rng))); return None
            if i > 0:
                q = st.rng.get("b%d" % (i - 1))
                if (q is None or q[0] <= 0 <= q[1]) and not any(E.bit(st, ("b%d" % (i - 1), 0, k)) == 1 for k in range(8)): over.append((i, dict(st.rng)))
            n = "b%d" % i; st.rng[n] = (0, 255)
            return conv(BV(var(n, 0, 0, 255, 8, 0).bits, 0, 0, 255, (n, 0)), 8, 0)
        return None
    E = Ev(P, unknown=unk); E.strict = True
    nstates = 0
    # the lead byte is confined to each class of the standard in turn, so are the others
    L = [(0, 0x7F), (0x80, 0xBF), (0xC0, 0xC0), (0xC1, 0xC1), (0xC2, 0xDF), (0xE0, 0xE0), (0xE1, 0xEF), (0xF0, 0xF0), (0xF1, 0xF3), (0xF4, 0xF4), (0xF5, 0xF7), (0xF8, 0xFF)]
    S = [(0, 0), (1, 0x7F), (0x80, 0x80), (0x81, 0x8F), (0x90, 0x9F), (0xA0, 0xBF), (0xC0, 0xFF)]
    C = [(0, 0), (1, 0x7F), (0x80, 0xBF), (0xC0, 0xFF)]
    def boxes():
        for l in L:
            if l[1] < 0x80: yield [l]; continue
            for s in S:
                if l[0] < 0xE0 or s[1] < 0x80 or s[0] > 0xBF: yield [l, s, (0, 255), (0, 255)]; continue
                for c in C:
                    if l[0] < 0xF0 or c[1] < 0x80 or c[0] > 0xBF: yield [l, s, c, (0, 255)]; continue
                    for d in C: yield [l, s, c, d]
    for box in boxes():
        st = State(); del over[:]
        for i, (lo, hi) in enumerate(box):
            st.rng["b%d" % i] = (lo, hi); st.mem[("in", i)] = var("b%d" % i, 0, lo, hi, 8, 0)
        st.mem[("res",)] = K(0, 64, 0)
        before = dict(st.mem)
        reads = {}
        def unk2(E_, s_, p, t): 
            if p[0] == "in": reads[p[1]] = 1
            return None
        E.hunknown = unk2
        n, good = standard(box)
        for s, r in E.run(f, st, [Ptr(("in",), 0), Ptr(("res",), "obj")]):
            nstates += 1
            key = "decode " + ",".join("%02X-%02X" % b for b in box)
            end = s.mem.get(("res",)); adv = end.off if isinstance(end, Ptr) and end.path == ("in",) else None
            txt = "bytes " + " ".join("%02X..%02X" % s.rng["b%d" % i] for i in range(len(box)))
            if good:
                want = fix(E, s, code_bits(n)); have = fix(E, s, conv(r, 32, 1).bits) if isinstance(r, BV) else None
                R.check("DEC", have == want, key + " code", f.where(), "%s decode to %s, expected %s" % (txt, show(have), show(want)))
                R.check("DEC", adv == n, key + " length", f.where(), "decoding %s advances by %s, not %d" % (txt, adv, n))
            else:
                mutf = box[0] == (0xC0, 0xC0) and box[1] == (0x80, 0x80)
                if mutf: R.check("ILL", isinstance(r, BV) and r.const() == 0 and adv == 2, key, f.where(), "modified UTF-8 zero C0 80 decodes to %s" % r)
                else:
                    c = r.const() if isinstance(r, BV) else None
                    R.check("ILL", c == NON, key, f.where(), "ill-formed %s decode to %s, not the error value" % (txt, r))
                    R.check("ILL", adv is not None and 1 <= adv <= 4, key + " progress", f.where(), "after ill-formed %s the position advances by %s" % (txt, adv))
    if nstates < 60: raise AnalysisError("only %d decoder states" % nstates)
    # order of reads: byte i only after byte i-1 is known not to be the terminator
    E = Ev(P, unknown=unk); E.strict = True; st = State(); del over[:]; st.mem[("res",)] = K(0, 64, 0)
    def unk3(E_, s_, p, t):
        v = unk(E_, s_, p, t)
        return v
    E.hunknown = unk3
    E.run(f, st, [Ptr(("in",), 0), Ptr(("res",), "obj")])
    R.check("TERM", not over, "decoder reads", f.where(), "byte %s is read although the one before it may be the terminator" % (over[:1],))
    return f

def stream(R, P, decf):
    """winput() over a symbolic input stream"""
    W = [f for f in P.fns.values() if f.name == "winput" and f.cls == "reflex::AbstractMatcher"]
    if not W: raise AnalysisError("winput vanished")
    f = W[0]
    for box, n in [([(0, 0x7F)], 1)] + [([(lo, hi), sec] + [(0x80, 0xBF)] * (k - 2), k) for lo, hi, sec in BOXES[1:] for k in [2 if lo < 0xE0 else 3 if lo < 0xF0 else 4]]:
        for nxt in ("eof", (0, 0x7F), (0xC0, 0xFF)) + (((0x80, 0xBF),) if n > 1 else ()):
            if n == 1 and nxt == (0x80, 0xBF): continue
            winput_one(R, P, f, box, n, nxt)

def winput_one(R, P, f, box, n, nxt, depth=0):
            key = "winput %s then %s" % (",".join("%02X-%02X" % b for b in box), nxt if nxt == "eof" else "%02X-%02X" % nxt)
            seq = list(box) + [nxt, (0, 255), (0, 255)]
            def hcall(fr, st, i, fid, obj, args):
                fn = P.fns.get(fid); name = fn.name if fn else fid.split("(")[0].split("::")[-1]
                if name in ("get", "input", "peek", "get_more", "peek_more") and not args:
                    p = st.mem.get(("strm",), K(0)).const()
                    if p >= len(seq): raise Undecided("reads far beyond the character")
                    r = seq[p]
                    v = K(-1) if r == "eof" else conv(var("b%d" % p, 0, r[0], r[1], 8, 0), 32, 1)
                    if "peek" not in name and r != "eof": st.mem[("strm",)] = K(p + 1)
                    return v
                if name == "DBGLOG" or fid.endswith("printf"): return K(0)
                return None
            E = Ev(P, call=hcall); E.strict = True; st = State(); st.mem[("strm",)] = K(0)
            for i, r in enumerate(seq):
                if r != "eof": st.rng["b%d" % i] = r
            try: res = E.run(f, st, [], ("m",))
            except Undecided as e:
                if depth: R.note("%s: not decided: %s" % (key, e)); return
                R.note("%s: corners only: %s" % (key, e)); parts = [[]]
                for l, h in box: parts = [x + [(y, y)] for x in parts for y in sorted({l, h})]
                for x in parts: winput_one(R, P, f, x, n, nxt, 1)
                return
            for s, r in res:
                want = fix(E, s, code_bits(n)); have = fix(E, s, conv(r, 32, 1).bits) if isinstance(r, BV) else None
                R.check("WIDE", have == want, key, f.where(), "winput() of a %d byte character gives %s, expected %s" % (n, show(have), show(want)))
                used = s.mem[("strm",)].const()
                R.check("WIDE", used == n, key + " length", f.where(), "winput() consumes %s bytes of a %d byte character" % (used, n))

MASKS = {0x80: {0x80, 0}, 0xC0: {0x80, 0xC0}, 0xE0: {0xC0}, 0xF0: {0xE0}, 0xF8: {0xF0}}

def bytelike(fn, i):
    i0 = i
    while True:
        t = fn.n(i).get("t", "")
        if t.replace("const ", "") in ("char", "unsigned char", "signed char"): return True
        nd = fn.n(i)
        if nd["k"] in CASTS | {"ParenExpr"} and nd.get("c"): i = nd["c"][0]
        else: return False

def lint(R, P):
    for fn in P.fns.values():
        for i, nd in enumerate(fn.nodes):
            if nd["k"] == "BinaryOperator" and nd["op"] in ("==", "!="):
                for a, b in ((0, 1), (1, 0)):
                    x, y = fn.strip(nd["c"][a]), nd["c"][b]
                    k = fn.cv(y)
                    if k is None or fn.k(x) != "BinaryOperator" or fn.n(x)["op"] != "&": continue
                    for p, q in ((0, 1), (1, 0)):
                        m = fn.cv(fn.c(x)[q])
                        if m in MASKS and m != 0x80 and fn.cv(fn.c(x)[p]) is None:
                            if k == 0 : continue
                            R.check("MASK", k in MASKS[m], "%s %s" % (fn.id, fn.text(i)), fn.at(i), "test %s does not match any class of bytes of the layout" % fn.text(i))
            # sums of comparisons
            if nd["k"] == "BinaryOperator" and nd["op"] == "+" and fn.k(fn.par.get(i, -1)) != "BinaryOperator":
                pass
    # length formulas: sum of comparisons of one variable with constants (and a constant)
    for fn in P.fns.values():
        inner = set()
        for i, nd in enumerate(fn.nodes):
            if nd["k"] == "BinaryOperator" and nd["op"] == "+":
                for c in nd["c"]:
                    inner.add(fn.strip(c))
        for i, nd in enumerate(fn.nodes):
            if nd["k"] != "BinaryOperator" or nd["op"] != "+" or i in inner: continue
            terms = []; const = 0; good = True
            def go(j):
                nonlocal const, good
                j = fn.strip(j); n = fn.n(j)
                if n["k"] == "BinaryOperator" and n["op"] == "+":
                    for c in n["c"]: go(c)
                elif n.get("cv") is not None: const += n["cv"]
                elif n["k"] == "BinaryOperator" and n["op"] in (">=", ">") and fn.cv(n["c"][1]) is not None: terms.append((fn.text(fn.strip(n["c"][0])), fn.cv(n["c"][1]) + (n["op"] == ">"), bytelike(fn, n["c"][0])))
                else: good = False
            go(i)
            if not good or not terms or len({t[0] for t in terms}) != 1: continue
            ks = sorted(t[1] for t in terms)
            if ks[0] < 0x80: continue
            what = fn.text(i); key = "%s %s" % (fn.id, what)
            if ks[0] in (0x80,):
                std = [0x80, 0x800, 0x10000, 0x200000, 0x4000000]
                R.check("LEN", (ks == std[:len(ks)] or ks == [0x80, 0x800, 0x10000, 0x110000]) and const in (0, 1), key, fn.at(i), "length formula %s does not give the number of bytes (or extra bytes) of the encoding" % what)
            elif ks[0] <= 0xFF:
                R.check("LEN", ks in ([0xC0, 0xE0, 0xF0], [0xE0, 0xF0]) and const in (0, 1, 2), key, fn.at(i), "length formula %s does not give the number of bytes following a lead byte" % what)

def check(R):
    P = load(["headers", "flex", "lib"]); R.units = P.tus
    R.rule("ENC", "encoding a code point gives the standard's bytes and length, and stores nothing else", 20)
    R.rule("DEC", "decoding a well-formed sequence gives its code point and advances by its length", 30)
    R.rule("ILL", "decoding an ill-formed sequence gives the error value and moves on", 60)
    R.rule("TERM", "a byte is read only after the one before it is known not to be the terminator", 1)
    R.rule("WIDE", "reading a wide character consumes exactly the bytes of one character and returns its code", 30)
    R.rule("MASK", "tests of masked bytes single out a class of the layout", 10)
    R.rule("LEN", "length formulas agree with the layout", 6)
    encoder(R, P, False); d = decoder(R, P); stream(R, P, d); lint(R, P)
    U = load(["headers"], ["-DWITH_UTF8_UNRESTRICTED"]); encoder(R, U, True)

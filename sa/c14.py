"""Compiled opcodes mean the same to every consumer. (1) The encoders are evaluated in a bit-slice domain for all operands within the
limits the program declares, and their result is handed to the decoders and to the kind tests: every decoder returns the operand it was
encoded from, every kind test accepts its own kind only. (2) The byte test of the matchers is evaluated for every byte against every goto
range (and every long index): it accepts exactly the range. (3) What a matcher does for an opcode of each kind is summarised as a set of
(conditions, effects) in a domain of uninterpreted terms; matcher, approximate matcher and the function that generated code calls must
have the same summary. (4) The generated code calls the function of the same kind with the arguments in the right order."""
from sym import *
import sym

def aligned(lo, hi):
    """lo..hi as blocks that fix a prefix of the bits"""
    out = []
    while lo <= hi:
        n = 1
        while lo % (2 * n) == 0 and lo + 2 * n - 1 <= hi: n *= 2
        out.append((lo, lo + n - 1)); lo += n
    return out

def same(v, name, w):
    """the value is the input variable"""
    return isinstance(v, BV) and all(b == (name, 0, i) or b.__class__ is int for i, b in enumerate(v.bits[:w])) and all(b == 0 for b in v.bits[w:])

def loops(fn):
    """has a back edge"""
    st = {}; 
    def dfs(b):
        stack = [(b, iter([s for s in fn.cfg[b]["s"] if s is not None]))]; st[b] = 1
        while stack:
            x, it = stack[-1]
            for s in it:
                if st.get(s) == 1: return True
                if s not in st: st[s] = 1; stack.append((s, iter([t for t in fn.cfg[s]["s"] if t is not None]))); break
            else: st[x] = 2; stack.pop()
        return False
    return dfs(fn.entry)

def check(R):
    P = load(["lib/pattern", "headers"]); R.units = P.tus
    R.rule("CODEC", "decoding an encoded opcode gives the operand it was encoded from", 10)
    R.rule("KIND", "kind test accepts the opcodes of its kind and no others", 20)
    R.rule("BYTE", "byte test of a matcher accepts exactly the bytes of a goto range", 2)
    R.rule("SAME", "opcode kind has the same conditions and effects for two consumers", 20)
    R.rule("OPERAND", "operand a matcher takes from an opcode is the one encoded", 6)
    R.rule("CALL", "generated code calls the function of the kind with the arguments in order", 10)
    pat = "reflex::Pattern"
    def const(n):
        g = P.globals.get((pat + "::Const::" + n, None))
        if g is None or "val" not in g: raise AnalysisError("constant %s vanished" % n)
        return int(g["val"])
    AMAX, GMAX, LONG, HALT = const("AMAX"), const("GMAX"), const("LONG"), const("HALT")
    metas = {}
    MIN = None
    for e in P.enums.values():
        for n, v in e["vals"].items():
            if not n.startswith("META_"): continue
            if n == "META_MIN": MIN = int(v)
            elif n != "META_MAX": metas[n[5:]] = int(v)
    if len(metas) < 8: raise AnalysisError("meta characters not found")
    def fn(name, n=None):
        r = [f for f in P.named(pat, name) if n is None or len(f.params) == n]
        if not r: raise AnalysisError("function %s vanished" % name)
        return r[0]
    def ev1(f, args, rng):
        E = Ev(P); st = State(); st.rng.update(rng); av = []
        for p, a in zip(f.params, args):
            if isinstance(a, tuple): av.append(E.var(st, a[0], a[1], a[2], p["t"]))
            elif isinstance(a, int): av.append(K(a, *E.wt(p["t"])))
            else: av.append(a)
        return E.run(f, st, av), st
    def encode(name, args):
        r, st = ev1(fn(name), args, {})
        if len(r) != 1 or not isinstance(r[0][1], BV): return None
        return r[0][1], r[0][0].rng
    def decode(name, v, rng, n=1):
        r, st = ev1(fn(name, n), [v], rng)
        out = []
        for x in r:
            if not any(type(x[1]) is type(y) and key(x[1]) == key(y) for y in out): out.append(x[1])
        return out
    # ---- all opcodes by kind: name -> list of (encoded value, ranges, operands)
    ops = {}
    def put(kind, name, args, **opd):
        e = encode(name, args)
        if e is None: R.bad("CODEC", "encoder " + name, fn(name).where(), "the encoding of a %s is not a definite function of its operand" % kind); return
        ops.setdefault(kind, []).append((e[0], e[1], opd))
    for lo, hi in aligned(0, GMAX): put("long", "opcode_long", [("x", lo, hi)], x=(lo, hi))
    for lo, hi in aligned(0, AMAX): put("take", "opcode_take", [("x", lo, hi)], x=(lo, hi))
    put("redo", "opcode_redo", [])
    put("tail", "opcode_tail", [("x", 0, 0xFFFF)], x=(0, 0xFFFF)); put("head", "opcode_head", [("x", 0, 0xFFFF)], x=(0, 0xFFFF))
    put("halt", "opcode_halt", [])
    for m, v in sorted(metas.items()): put("meta " + m, "opcode_goto", [v, v, ("x", 0, LONG)], x=(0, LONG), lo=v, hi=v)
    for lo in range(256):
        for a, b in ([(0, 0)] if lo == 0 else []) + aligned(max(lo, 1), 255): put("goto", "opcode_goto", [lo, ("h", a, b), ("x", 0, LONG)], x=(0, LONG), lo=lo, h=(a, b))
    dec = {"long": "long_index_of", "take": "long_index_of", "tail": "lookahead_of", "head": "lookahead_of"}
    for kind in sorted(ops):
        d = "index_of" if kind == "goto" or kind.startswith("meta") else dec.get(kind)
        if d:
            ok = True
            for v, rng, o in ops[kind]:
                r = decode(d, v, rng)
                w = 16 if d != "long_index_of" else 24
                if not (len(r) == 1 and same(r[0], "x", w) and all(b == ((o["x"][0] >> i) & 1) for i, b in enumerate(r[0].bits) if b.__class__ is int)): ok = False
            R.check("CODEC", ok, "%s of %s" % (d, kind), fn(d).where(), "the operand of an opcode of kind %s is not what %s returns" % (kind, d))
        if kind == "goto" or kind.startswith("meta"):
            for d, n in (("lo_of", "lo"), ("hi_of", "h")):
                ok = True
                for v, rng, o in ops[kind]:
                    r = decode(d, v, rng); r = r[0] if len(r) == 1 else None
                    if n == "h" and kind == "goto": good = same(r, "h", 8) and all(b == ((o["h"][0] >> i) & 1) for i, b in enumerate(r.bits) if b.__class__ is int)
                    else: good = isinstance(r, BV) and r.const() == o["lo"]
                    ok = ok and good
                R.check("CODEC", ok, "%s of %s" % (d, kind), fn(d).where(), "%s does not return the bound a goto opcode on %s was made with" % (d, kind))
    r = decode("is_opcode_halt", *ops["halt"][0][:2]) if ops.get("halt") else []
    tests = {"is_opcode_long": ("long",), "is_opcode_take": ("take", "long"), "is_opcode_redo": ("redo",), "is_opcode_tail": ("tail",), "is_opcode_head": ("head",), "is_opcode_halt": ("halt",), "is_opcode_goto": ("goto", "halt"), "is_opcode_meta": ("meta",)}
    # kinds that stand in the same place in the code; a long index only follows a goto
    for t, acc in tests.items():
        for kind in sorted(ops):
            k0 = kind.split()[0]
            if t == "is_opcode_take" and k0 in ("goto", "long"): continue      # told apart by testing for goto first, and by its place
            if t == "is_opcode_meta" and k0 not in ("meta", "goto", "halt"): continue   # tells gotos apart
            if t in ("is_opcode_long", "is_opcode_tail", "is_opcode_head", "is_opcode_redo") and k0 == "goto": continue
            want = k0 in acc; ok = True
            for v, rng, o in ops[kind]:
                r = decode(t, v, rng)
                if not (len(r) == 1 and isinstance(r[0], BV) and r[0].const() == int(want)): ok = False
            R.check("KIND", ok, "%s on %s" % (t, kind), fn(t, 1).where(), "%s does not %s every opcode of kind %s" % (t, "accept" if want else "reject", kind))
    # every two kinds that stand in the same place differ: no bit pattern is both
    # ---- consumers
    LP = {}
    def inline(f):
        if f.id not in LP: LP[f.id] = bool(f.cfg) and len(f.nodes) < 400 and not loops(f) and f.file.startswith(REPO) and not f.d.get("virt") and f.name not in ("get", "peek", "peek_more")
        return LP[f.id]
    getters = {f.id for f in P.fns.values() if f.name == "get" and f.cls == "reflex::AbstractMatcher"}
    class Consumer: pass
    cons = []
    for cls in ("reflex::Matcher", "reflex::FuzzyMatcher"):
        for f in P.named(cls, "match"):
            c = Consumer(); c.f = f; c.name = cls.split("::")[-1]
            fetch = {}
            for i, nd in enumerate(f.nodes):
                if nd["k"] != "DeclStmt": continue
                for d in nd["decls"]:
                    j = f.strip(d["i"]) if d["i"] >= 0 else -1
                    if d["t"] in ("unsigned int", "const unsigned int") and j >= 0:
                        # a local read through a pointer into the code
                        if f.k(j) == "UnaryOperator" and f.n(j)["op"] == "*" and f.k(f.strip(f.c(j)[0])) == "DeclRefExpr" or f.k(j) == "ArraySubscriptExpr" and f.cv(f.c(j)[1]) == 0:
                            p = f.nodes[f.strip(f.c(j)[0])]
                            if p.get("dk") == "var" and typ(p.get("t", "")).replace("const ", "").strip() in ("unsigned int *",): fetch[d["d"]] = (i, p["d"])
            if len(fetch) != 1: raise AnalysisError("opcode fetch of %s not found" % f.id)
            (c.op, (c.fetch, c.pc)), = fetch.items()
            c.c1 = None
            for i, nd in enumerate(f.nodes):
                if nd["k"] == "BinaryOperator" and nd["op"] == "=" and f.nodes[f.strip(nd["c"][1])].get("fn") in getters: c.c1 = f.nodes[f.strip(nd["c"][0])].get("d")
            if c.c1 is None: raise AnalysisError("%s does not read characters" % f.id)
            # flags by what they start from
            c.flags = {}
            for nd in f.nodes:
                if nd["k"] == "DeclStmt":
                    for d in nd["decls"]:
                        if d["t"] == "bool" and d["i"] >= 0: c.flags.setdefault(f.text(f.strip(d["i"])), []).append(d["d"])
            cons.append(c)
    if len(cons) < 2: raise AnalysisError("consumers of opcodes vanished")
    M = cons[0]
    # flags of the interpreted matcher that are handed to generated code
    fsm = {}
    for nd in M.f.nodes:
        if nd["k"] == "BinaryOperator" and nd["op"] == "=":
            l = M.f.path(nd["c"][0]); r = M.f.path(nd["c"][1])
            if l and l[:2] == ("this", "fsm_") and r and len(r) == 1 and r[0] != M.c1: fsm.setdefault(r[0], l[2])
    byinit = {}
    for t, ds in M.flags.items():
        for d in ds:
            if d in fsm: byinit[t] = fsm[d]
    for c in cons: c.fsm = {d: byinit[t] for t, ds in c.flags.items() for d in ds if t in byinit}
    initial = {F: Opq(("fsm", F)) for F in set(byinit.values())}
    if not initial: raise AnalysisError("state shared with generated code not found")
    SPLIT = P.globals.get(("reflex::AbstractMatcher::Const::SPLIT", None), {}).get("val")
    C0, C1 = Opq("c0"), Opq("c1")
    def hook(A, st, i, fid, obj, args):
        if fid in getters: return A.E.c1v
        return None
    def start(c, split, c1v=C1):
        E = Sym(P, inline, hook, dict(initial)); E.c1v = c1v
        if not split: E.initial["len_"] = K(0, 64, 0)
        st = SState(); E.frame += 1; A = SFrame(E, c.f, E.frame, ("this",), 0); fr = E.frame
        for p in c.f.params: st.mem[(fr, p["d"])] = K(int(SPLIT), 32, 1) if split else K(int(SPLIT) + 1000, 32, 1)
        st.mem[(fr, c.pc)] = Opq("pc"); st.mem[(fr, c.c1)] = C0; st.lits[("==",) + tuple(sorted(("c0", -1), key=repr))] = False
        for d, F in c.fsm.items(): st.mem[(fr, d)] = initial[F]
        return E, A, st
    def place(f, node):
        for b, B in f.cfg.items() if isinstance(f.cfg, dict) else enumerate(f.cfg):
            if B is None: continue
            for k, e in enumerate(B["e"]):
                if e == node: return b, k
        raise AnalysisError("element not found")
    def isget(c, i): return c.f.nodes[i].get("fn") in getters
    def wrop(c, i):
        nd = c.f.nodes[i]
        return nd["k"] == "BinaryOperator" and nd["op"] == "=" and c.f.nodes[c.f.strip(nd["c"][0])].get("d") == c.op
    def phase1(c, v, rng, split):
        E, A, st = start(c, split); st.rng.update(rng)
        b, k = place(c.f, c.fetch)
        st.mem[(A.fr, c.op)] = v
        r = A.walk([(b, k + 1, st)], lambda i, s: i == c.fetch or isget(c, i))
        return E, A, r
    def phase2(c, v, rng, split, c1v=C1):
        """what happens to an opcode once a character was read"""
        m = ops["meta BOL" if "BOL" in metas else [k for k in ops if k.startswith("meta")][0]][0]
        E, A, st = start(c, split, c1v); st.rng.update(m[1])
        b, k = place(c.f, c.fetch); st.mem[(A.fr, c.op)] = m[0]
        r = [x for x in A.walk([(b, k + 1, st)], lambda i, s: i == c.fetch or isget(c, i)) if x[1] not in (None, "loop") and isget(c, x[1])]
        if not r: return E, A, []
        st = r[0][0]; g = r[0][1]
        st.lits = {}; st.trace = (); st.truths = {q: x for q, x in st.truths.items() if not (isinstance(q, tuple) and len(q) > 1 and q[1] == "seen")}
        st.lits[("==",) + tuple(sorted(("c0", -1), key=repr))] = False
        st.rng = dict(rng); st.mem[(A.fr, c.op)] = v; st.mem[(A.fr, c.pc)] = Opq("pc")
        b, k = place(c.f, g)
        out = A.walk([(b, k, st)], lambda i, s: i == c.fetch or wrop(c, i) or (isget(c, i) and (i, ) != (g, )))
        return E, A, out
    def has(v, name): return isinstance(v, BV) and any(b.__class__ is tuple and b[0] == name for b in v.bits)
    def summary(c, E, A, res, long=False):
        """-> list of (literals, members, trace, taken, advance)"""
        out = []
        for s, why in res:
            if why == "loop": continue
            m, tr = effects(E, s, lambda q: False)
            for d, F in c.fsm.items():
                v = s.mem.get((A.fr, d))
                if v is not None and key(v) != key(initial[F]): m[("fsm_", F)] = key(v)
            pc = key(s.mem.get((A.fr, c.pc), TOP))
            jump = None
            for q, v in s.mem.items():
                if q[0] == A.fr and q[1] not in (c.op, c.pc) and len(q) == 2 and typ(A.E.P and "unsigned int") and isinstance(v, (BV, Opq)):
                    if has(v, "x") and s.taken(q[1]) if hasattr(s, "taken") else has(v, "x"): jump = ("operand", v)
                    elif long and isinstance(v, Opq) and "load" in repr(v.tag) and "'pc'" in repr(v.tag): jump = ("long", v)
            out.append((s.lits, m, tr, jump, pc, why))
        return out
    def show(l): return " and ".join(("" if v else "not ") + sym_text(t) for t, v in sorted(l.items(), key=repr)) or "always"
    def under(e, lits, o):
        m = dict(e[0])
        for k, v in o[0]: m.setdefault(k, ("mem", ("this",) + k, 0))
        return {k: subst(v, lits) for k, v in m.items()}, subst(e[1], lits), e[2]
    def compare(A, B, ta=lambda x: x, what=("", "")):
        """first difference between two summaries of (literals, effect)"""
        if not A or not B: return "%s has no outcome" % what[0 if not A else 1]
        for la, ea in A:
            hit = False
            for lb, eb in B:
                if compatible(la, lb):
                    hit = True
                    if ea != eb and under(ea, {**la, **lb}, eb) != under(eb, {**la, **lb}, ea): return (la, lb, ea, eb)
        return None
    drop = lambda l: {t: v for t, v in l.items() if t != ("==",) + tuple(sorted(("c0", -1), key=repr))}
    def norm(S, kind):
        out = []
        for l, m, tr, jump, pc, why in S:
            out.append((drop(l), (tuple(sorted(m.items(), key=repr)), tr, jump is not None if kind.startswith("meta") else None)))
        return out
    def diff(d, n1, n2):
        if isinstance(d, str): return d
        la, lb, ea, eb = d
        w = []
        if ea[2] != eb[2]: w.append("%s %s, %s %s" % (n1, "matches" if ea[2] else "does not match", n2, "matches" if eb[2] else "does not"))
        ma, mb = dict(ea[0]), dict(eb[0])
        for k in sorted(set(ma) | set(mb), key=repr):
            if ma.get(k) != mb.get(k): w.append("%s is %s in %s and %s in %s" % (".".join(map(str, k)), sym_text(ma[k]) if k in ma else "unchanged", n1, sym_text(mb[k]) if k in mb else "unchanged", n2))
        if not w: w.append("calls or stores differ")
        return "; ".join(w)[:300] + " (when " + show({**la, **lb})[:200] + ")"
    fsmf = {}
    for f in P.fns.values():
        if f.cls == "reflex::Matcher" and f.name.startswith("FSM_"): fsmf.setdefault(f.name[4:], {})[len(f.params)] = f
    def fsmsum(f, args, split, rng, kind):
        E = Sym(P, inline, hook, dict(initial)); E.c1v = C1
        if not split: E.initial["len_"] = K(0, 64, 0)
        st = SState(); st.rng.update(rng); out = []
        for s, r in E.run(f, st, args, ("this",)):
            todo = [(s, None)]
            if isinstance(r, Opq): todo = []; 
            if isinstance(r, Opq):
                A = SFrame(E, f, -1, ("this",), 0)
                todo = [(s2, t) for t, s2 in A.onlit(s, r.tag)]
            elif isinstance(r, BV) and r.const() is not None: todo = [(s, bool(r.const()))]
            for s2, t in todo:
                m, tr = effects(E, s2)
                out.append((drop(s2.lits), (tuple(sorted(m.items(), key=repr)), tr, t if kind.startswith("meta") else None)))
        return out
    c0, rest = cons[0], cons[1:]
    # ---- what each kind does, by consumer
    kinds = ["take", "redo", "tail", "head"] + sorted(k for k in ops if k.startswith("meta"))
    SHORT = aligned(0, LONG - 1)[0]
    S = {}
    for kind in kinds:
        v, rng, o = ops[kind][0]
        vs = [("", v, rng)]
        if kind.startswith("meta"):
            vs = [("short",) + encode("opcode_goto", [o["lo"], o["lo"], ("x",) + SHORT]), ("long",) + encode("opcode_goto", [o["lo"], o["lo"], LONG])]
        for split in (False, True):
            for ln, vv, rr in vs:
                for c in cons:
                    for ph, f in ((1, phase1), (2, phase2)):
                        E, A, r = f(c, vv, rr, split)
                        S[(kind, c.name, ph, split, ln)] = summary(c, E, A, r, ln == "long")
    def prior(kind, ph): return "opcode %s %s" % (kind, "met before a character is read" if ph == 1 else "met after a character was read")
    for kind in kinds:
        for ph in (1, 2):
            for c in rest:
                bad = None
                for split in (False, True):
                    for ln in ("", "short", "long"):
                        if (kind, c0.name, ph, split, ln) not in S: continue
                        a, b = (S[(kind, x.name, ph, split, ln)] for x in (c0, c))
                        bad = bad or compare(norm(a, kind), norm(b, kind), what=(c0.name, c.name)) or compare(norm(b, kind), norm(a, kind), what=(c.name, c0.name))
                R.check("SAME", bad is None, "%s: %s and %s" % (prior(kind, ph), c0.name, c.name), c.f.where(), diff(bad, c0.name, c.name) if bad else "")
            # operand and advance
            for c in cons:
                why = None
                for split in (False, True):
                    for ln in ("", "short", "long"):
                        for l, m, tr, jump, pc, w in S.get((kind, c.name, ph, split, ln), []):
                            why = why or operand(c, kind, ph, ln, m, tr, jump, pc, w)
                R.check("OPERAND", why is None, "%s in %s" % (prior(kind, ph), c.name), c.f.where(), why or "")
    # ---- interpreted and generated code
    def versus(kind, ph, name, args, f):
        bad = None
        for split in (False, True):
            for ln in ("", "short"):
                if (kind, c0.name, ph, split, ln) not in S: continue
                v, rng, o = ops[kind][0]
                b = fsmsum(f, args, split, rng, kind)
                a = norm(S[(kind, c0.name, ph, split, ln)], kind)
                bad = bad or compare(a, b, what=(c0.name, name)) or compare(b, a, what=(name, c0.name))
                if isinstance(bad, tuple) and bad[2] == bad[3]: bad = None
        R.check("SAME", bad is None, "%s: %s and %s" % (prior(kind, ph), c0.name, name), f.where(), diff(bad, *( (c0.name, "FSM_" + name))) if bad else "")
    def operandvar(t): return decode(dec[t], *ops[t][0][:2])[0]
    for kind, n, ph, args in (("take", "TAKE", 1, 1), ("redo", "REDO", 1, 0), ("tail", "TAIL", 1, 1), ("head", "HEAD", 1, 1), ("take", "TAKE", 2, 2), ("redo", "REDO", 2, 1), ("tail", "TAIL", 2, 1)):
        f = fsmf.get(n, {}).get(args)
        if f is None: R.bad("SAME", "FSM_%s with %d arguments" % (n, args), "include/reflex/matcher.h", "the function that generated code calls is missing"); continue
        av = ([operandvar(kind)] if n != "REDO" else []) + ([C1] if args > (n != "REDO") else [])
        versus(kind, ph, n, av, f)
    if "DENT" in fsmf and "DED" in metas: versus("meta DED", 1, "DENT", [], fsmf["DENT"][0])
    # ---- calls that are generated
    label = P.globals.get(("reflex::meta_label", None), {}).get("val")
    calls = {}
    for f in P.fns.values():
        if f.cls != pat: continue
        for i, nd in enumerate(f.nodes):
            if nd["k"] == "StringLiteral":
                for m in re.finditer(r"FSM_META_%s\(([^)]*)\)", nd.get("v", "")): calls.setdefault(f.id, []).append((i, [x.strip() for x in m.group(1).split(",") if x.strip()]))
    if not calls: raise AnalysisError("generated calls not found")
    for fid in sorted(calls):
        f = P.fns[fid]
        got = metacalls(P, f, metas, inline)
        for m in sorted(metas):
            n = m
            g = got.get(m)
            if g is None: R.bad("CALL", "meta %s in %s" % (m, f.name), f.where(), "no call is generated for the anchor %s" % m); continue
            for at, lab, args in g:
                ok = lab == m; why = "the call generated for %s is FSM_META_%s" % (m, lab)
                F = fsmf.get("META_" + m, {})
                if ok and len(args) not in F: ok = False; why = "FSM_META_%s takes other arguments than (%s)" % (m, ", ".join(args))
                if ok: 
                    E = {"c0": C0, "c1": C1}
                    if not all(a in E for a in args): ok = False; why = "argument of FSM_META_%s is not a character that is read" % m
                    else:
                        bad = None
                        for split in (False, True):
                            b = fsmsum(F[len(args)], [E[a] for a in args], split, {}, "meta"); a = norm(S[("meta " + m, c0.name, 2, split, "short")], "meta")
                            bad = bad or compare(a, b, what=(c0.name, "FSM_META_" + m)) or compare(b, a)
                        if bad is not None: ok = False; why = diff(bad, c0.name, "FSM_META_%s(%s)" % (m, ", ".join(args)))
                R.check("CALL", ok, "anchor %s in %s" % (m, f.name), f.at(at), why)
    # ---- the byte test
    for c in cons:
        bad = None
        def bytes_(v, rng, ch):
            g = encode("opcode_goto", [0, 255, ("x",) + SHORT])
            E, A, st = start(c, False, K(ch, 32, 1)); st.rng.update(g[1]); st.mem[(A.fr, c.op)] = g[0]
            b, k = place(c.f, c.fetch)
            r = [x for x in A.walk([(b, k + 1, st)], lambda i, s: i == c.fetch or isget(c, i)) if x[1] not in (None, "loop") and isget(c, x[1])]
            out = set()
            for s, g0 in r[:1]:
                s.rng = dict(rng); s.mem[(A.fr, c.op)] = v; s.mem[(A.fr, c.pc)] = Opq("pc"); s.lits = {}; s.truths = {q: x for q, x in s.truths.items() if not (isinstance(q, tuple) and len(q) > 1 and q[1] == "seen")}
                b, k = place(c.f, g0)
                for s2, why in A.walk([(b, k, s)], lambda i, s: i == c.fetch or wrop(c, i) or (isget(c, i) and i != g0)):
                    out.add("skip" if isinstance(why, int) and wrop(c, why) else "take" if why == c.fetch else "leave")
            return out
        n = 0
        for ch in (list(range(256))):
            t = []
            if ch < 255: t.append(("goto", ("l", ch + 1, 255), ("h", 0, 255), "skip"))
            for a, b in aligned(ch, 255): t.append(("goto", ("l", 0, ch), ("h", a, b), "take"))
            for a, b in (aligned(0, ch - 1) if ch else []): t.append(("goto", ("l", 0, ch), ("h", a, b), "skip"))
            for k, l, h, want in t:
                r, st = ev1(fn("opcode_goto"), [l, h, ("x", 1, SHORT[1])], {})
                for s, v in r:
                    # operands that are not meta characters
                    got = bytes_(v, s.rng, ch); n += 1
                    if got != {want} and bad is None: bad = "byte 0x%02X against goto ranges %d..%d to %d..%d: %s, expected %s" % (ch, l[1], l[2], h[1], h[2], "/".join(sorted(got)) or "nothing", want)
            for v, rng, o in ops["long"]:
                got = bytes_(v, rng, ch); n += 1
                if got != {"skip"} and bad is None: bad = "byte 0x%02X is taken to match the long index of another opcode" % ch
            if bad: break
        R.check("BYTE", bad is None, "byte test of %s (%d boxes)" % (c.name, n), c.f.where(), bad or "")
    emission(R, P, inline, LONG, HALT, fsmf)
    reading(R, P, inline, metas)
    R.assumption("Bytes and words are as wide as the target's. len_ is zero while a match other than a split is attempted. Equality of effects is equality of terms: two consumers that call the same function in the same state get the same answer.")

def reading(R, P, inline, metas):
    """generated code reads the character, and keeps the previous one, wherever an anchor's test is given them"""
    R.rule("READ", "character that an anchor's test looks at has been read and kept", 1)
    pat = "reflex::Pattern"; boolref = lambda p: p["t"].replace(" ", "") == "bool&"
    clos = [f for f in P.fns.values() if f.cls == pat and sum(map(boolref, f.params)) == 2 and any(nd.get("fn") == f.id for nd in f.nodes)]
    gens = [f for f in P.fns.values() if f.cls == pat and any(nd["k"] == "StringLiteral" and "FSM_CHAR" in nd.get("v", "") for nd in f.nodes)]
    if len(clos) != 1 or len(gens) != 1: return
    g = clos[0]; f = gens[0]; pos = [k for k, p in enumerate(g.params) if boolref(p)]
    def calls(fn): return [i for i, nd in enumerate(fn.nodes) if nd.get("fn") == g.id and nd["k"] in ("CXXMemberCallExpr", "CallExpr")]
    cs = calls(f)
    if not cs: return
    vars_ = [f.path(f.nodes[cs[0]]["c"][1:][k]) for k in pos]
    if any(v is None or len(v) != 1 for v in vars_): return
    # the one that decides whether the previous character is kept
    def cfg(fn): return {b: B for b, B in (fn.cfg.items() if isinstance(fn.cfg, dict) else enumerate(fn.cfg)) if B}
    C = cfg(f); keep = set()
    for b, B in C.items():
        if B.get("cond") is None or B.get("cond", -1) < 0: continue
        c = f.path(f.strip(B["cond"]))
        if c is None or c not in vars_: continue
        for y in B["s"]:
            if y is None or y not in C: continue
            for e in C[y]["e"]:
                nd = f.n(e)
                if nd["k"] == "CallExpr" and any(f.k(f.strip(a)) == "StringLiteral" and re.search(r"c0 = c1", f.nodes[f.strip(a)]["v"]) for a in nd["c"][1:]): keep.add(vars_.index(c))
    if len(keep) != 1: return
    prev = keep.pop()
    need = {}
    for fn in P.fns.values():
        if fn.cls != pat or not any(nd["k"] == "StringLiteral" and "FSM_META_" in nd.get("v", "") for nd in fn.nodes): continue
        for m, cl in metacalls(P, fn, metas, inline).items():
            for i, lab, args in cl: need.setdefault(m, set()).update(args)
    for fn, roots in ((f, vars_), (g, [(g.params[k]["d"],) for k in pos])):
        C = cfg(fn); cb = {b for b, B in C.items() for e in B["e"] if e in calls(fn)}
        loops = []
        for h in C:
            # natural loop of h: what h dominates and reaches h from
            reach = {fn.entry} if h != fn.entry else set(); todo = list(reach)
            while todo:
                x = todo.pop()
                for y in C[x]["s"]:
                    if y is not None and y != h and y in C and y not in reach: reach.add(y); todo.append(y)
            dom = set(C) - reach
            pred = {}
            for x in C:
                for y in C[x]["s"]:
                    if y is not None: pred.setdefault(y, []).append(x)
            body = set(); todo = [x for x in pred.get(h, ()) if x in dom]
            if not todo: continue
            while todo:
                x = todo.pop()
                if x in body: continue
                body.add(x)
                if x != h: todo.extend(y for y in pred.get(x, ()) if y in dom)
            body.add(h)
            if cb & body: loops.append((len(body), h, body))
        if not loops: continue
        n, h, body = min(loops)
        los = set()
        for b in body:
            for e in C[b]["e"]:
                nd = fn.n(e)
                if nd["k"] in ("UnaryOperator",) and nd["op"] == "++":
                    q = fn.path(nd["c"][0])
                    if q and len(q) == 1 and q not in roots: los.add(q)
        if len(los) != 1: continue
        lo = los.pop(); inside = {e for b in body for e in C[b]["e"]}
        bad = None; n = 0
        for m, v in sorted(metas.items()):
            if not need.get(m): continue
            ref = {}
            def setup(E, A, st):
                ref["A"] = A; st.mem[(A.fr,) + lo] = K(v, 16, 0)
                for q in roots:
                    A.alias.pop(q[0], None); st.mem[(A.fr,) + q] = K(0, 1, 0)
            def stop(i, s):
                nd = fn.n(i)
                return i not in inside or nd["k"] == "UnaryOperator" and nd["op"] == "++" and fn.path(nd["c"][0]) == lo or i in calls(fn)
            try: out, A = events(P, fn, inline, (h, 0), stop, setup)
            except AnalysisError: continue
            for s, why in out:
                if why == "loop": continue
                v2 = [A.E.read(s, (A.fr,) + q) for q in roots]; n += 1
                got = [isinstance(x, BV) and bool(x.const()) for x in v2]
                if "c0" in need[m] and not got[prev]: bad = bad or "the previous character is not kept for the test of %s" % m
                if "c1" in need[m] and not got[1 - prev]: bad = bad or "no character is read for the test of %s" % m
        if n: R.check("READ", bad is None, "anchors in %s" % fn.name, fn.where(), bad or "")

def iters(f, edges=True):
    """elements that start an edge iteration: calls of begin/rbegin on a member named edges"""
    return {i for i, nd in enumerate(f.nodes) if nd["k"] == "CXXMemberCallExpr" and nd.get("n") in ("begin", "rbegin", "cbegin", "crbegin") and f.nodes[f.strip(f.nodes[f.strip(nd["c"][0])]["c"][0])].get("n") == "edges"}

def events(P, f, inline, startat, stop, setup, limit=8000):
    E = Sym(P, inline, None, {}, limit); st = SState(); E.frame += 1; A = SFrame(E, f, E.frame, ("this",), 0)
    def hook(A2, st, i, fid, obj, args):
        g = P.fns.get(fid); n = A2.fn.n(i).get("n") or (fid or "").split("(")[0].split("::")[-1]
        if g is not None and g.cls == "reflex::Pattern" and n.startswith("opcode_"): return Opq(("enc", n, tuple(key(A2.val(st, a)) for a in args)))
        if n in ("fprintf", "fputs", "print_char", "fputc"):
            lits = [A2.fn.nodes[A2.fn.strip(a)] for a in args]
            st.trace += (("print", tuple(nd.get("v") if nd["k"] == "StringLiteral" else key(A2.val(st, a)) for nd, a in zip(lits, args) if nd["k"] != "CXXDefaultArgExpr"), n),); return K(0, 32, 1)
        return None
    E.hcall = hook; E.c1v = Opq("c1"); setup(E, A, st)
    return A.walk([(startat[0], startat[1], st)], stop), A

def encoded(tr):
    return [e[2][1:] for e in tr if e[0] == "store" and len(e) > 2 and isinstance(e[2], tuple) and e[2][:1] == ("enc",)]
def printed(tr):
    out = []
    for e in tr:
        if e[0] == "print":
            m = re.search(r"FSM_([A-Z]+)\(", str(e[1][1]) if len(e[1]) > 1 else "")
            if m: out.append((m.group(1), tuple(x for x in e[1][2:])))
    return out

def emission(R, P, inline, LONG, HALT, fsmf):
    R.rule("EMIT", "state and edge are emitted with their own operands, in code and in generated code alike", 1)
    pat = "reflex::Pattern"
    enc = [f for f in P.fns.values() if f.cls == pat and any(nd.get("n") == "opcode_goto" for nd in f.nodes if nd["k"] == "CallExpr")]
    gen = [f for f in P.fns.values() if f.cls == pat and any(nd["k"] == "StringLiteral" and "FSM_FIND" in nd.get("v", "") for nd in f.nodes)]
    if not enc or not gen: raise AnalysisError("code emitters not found")
    def stateseq(f, reader):
        """{(redo, accepting): set of event sequences} of the part before the edges"""
        E0 = iters(f); reads = [i for i, nd in enumerate(f.nodes) if nd["k"] == "MemberExpr" and nd.get("n") == "redo"]
        res = {}
        for r0 in reads:
            blk = None
            for b, B in f.cfg.items() if isinstance(f.cfg, dict) else enumerate(f.cfg):
                if B and r0 in B["e"]: blk = b
            root = f.path(r0)
            if blk is None or root is None: continue
            def setup(E, A, st): st.mem[(A.fr, root[0])] = Ptr(("state",), "obj")
            out, A = events(P, f, inline, (blk, 0), lambda i, s: i in E0, setup)
            for s, why in out:
                if why is None: continue
                ev_ = reader(s.trace)
                if ev_ is None: continue
                redo = implied(s.lits, ("!", ("==",) + tuple(sorted((("mem", ("state", "redo"), 0), 0), key=repr)))); 
                if redo is None: redo = implied(s.lits, ("mem", ("state", "redo"), 0))
                acc = implied(s.lits, ("<", 0, ("mem", ("state", "accept"), 0)))
                if acc is None: acc = implied(s.lits, ("!", ("==",) + tuple(sorted((("mem", ("state", "accept"), 0), 0), key=repr))))
                res.setdefault((redo, acc), set()).add(tuple(ev_))
            if res: break
        return res
    def op(name, args):
        if name == "opcode_redo" or name == "REDO": return ("REDO",)
        if name in ("opcode_take", "TAKE"): return ("TAKE", "accept" if args and args[-1] == ("mem", ("state", "accept"), 0) else "?")
        if name in ("opcode_tail", "TAIL", "opcode_head", "HEAD"):
            n = name[-4:].upper(); r = repr(args[-1]) if args else ""
            return (n, "tails" if "'tails'" in r and "'heads'" not in r else "heads" if "'heads'" in r and "'tails'" not in r else "?")
        return None
    def seqs(f, reader):
        out = {}
        for k, S in stateseq(f, lambda tr: [op(*e) for e in reader(tr) if op(*e)]).items(): out.setdefault(k, set()).update(S)
        return out
    want = {"TAKE": "accept", "TAIL": "tails", "HEAD": "heads"}
    for f, reader in [(f, encoded) for f in enc] + [(f, printed) for f in gen]:
        S = seqs(f, reader)
        if not any(S.values()) : continue
        bad = None
        for (redo, acc), ss in S.items():
            for s in ss:
                for e in s:
                    if e[0] in want and e[1] != want[e[0]]: bad = bad or "%s is emitted with an operand that is not the state's %s" % (e[0], want[e[0]])
                heads = [e[0] for e in s]
                if redo is True and heads[:1] != ["REDO"]: bad = bad or "a state to be redone does not emit REDO first"
                if redo is False and acc is True and heads[:1] != ["TAKE"]: bad = bad or "an accepting state does not emit TAKE first"
                if redo is False and acc is False and ("TAKE" in heads or "REDO" in heads): bad = bad or "TAKE or REDO is emitted for a state that does not accept"
                if heads.count("TAKE") + heads.count("REDO") > 1: bad = bad or "a state emits TAKE or REDO twice"
        al = set().union(*S.values())
        for n in ("TAIL", "HEAD"):
            if not any(n in [e[0] for e in s] for s in al): bad = bad or "the %ss of a state are not emitted" % n.lower()
        R.check("EMIT", bad is None, "state in %s" % f.name, f.where(), bad or "")
    # edges
    ORIENT.clear()
    for f in enc:
        gid = [i for i, nd in enumerate(f.nodes) if nd["k"] == "CallExpr" and nd.get("n", "") == "opcode_goto"]
        starts = {}
        lov = set()
        for g in gid:
            a = f.nodes[g]["c"][1:]
            r = [f.path(x) for x in a[:2]]
            for x in r:
                if x and len(x) == 1: lov.add(x[0])
        edge_walk(R, P, f, inline, lov, LONG, HALT, encoded, True)
    for f in gen:
        pc = [i for i, nd in enumerate(f.nodes) if nd["k"] in ("CallExpr", "CXXMemberCallExpr") and (nd.get("n") or "") == "print_char"]
        lov = set()
        for g in pc:
            a = [q for q in f.nodes[g]["c"][1:] if f.k(q) != "CXXDefaultArgExpr"]
            x = f.path(a[-1]) if a else None
            if x and len(x) == 1: lov.add(x[0])
        edge_walk(R, P, f, inline, lov, LONG, HALT, None, False)

DBG = __import__("os").environ.get("DBG14")
def edge_walk(R, P, f, inline, lov, LONG, HALT, reader, code):
    decl = {}
    for i, nd in enumerate(f.nodes):
        if nd["k"] == "DeclStmt":
            for d in nd["decls"]:
                if d["d"] in lov: decl[d["d"]] = i
    if DBG: print("edge_walk", f.name, len(decl), code)
    if len(decl) < 2: return
    pl = {}
    for b, B in f.cfg.items() if isinstance(f.cfg, dict) else enumerate(f.cfg):
        if B:
            for k, e in enumerate(B["e"]):
                if e in decl.values(): pl[e] = (b, k)
    nmeta = 0; bad = None; n = 0; kinds = set()
    blocks = {v[0] for v in pl.values()}
    for b in blocks:
        es = [k for e, (bb, k) in pl.items() if bb == b]
        vs = [d for d, e in decl.items() if pl.get(e, (None,))[0] == b]
        if len(vs) < 2: continue
        first = min(es)
        res = {}
        stopset = {e for e in decl.values()}
        its = set()
        def refs(i):
            nd = f.n(i)
            if nd["k"] == "DeclRefExpr" and nd.get("dk") == "var": its.add(nd["d"])
            for x in nd.get("c", ()):
                if x >= 0: refs(x)
        for d, e in decl.items():
            for q in f.nodes[e]["decls"]:
                if q["d"] == d and q["i"] >= 0: refs(q["i"])
        cnt = {"n": 0}
        cf = f.cfg if isinstance(f.cfg, dict) else dict(enumerate(f.cfg)); seen = {f.entry}; todo = [f.entry]
        while todo:
            x = todo.pop()
            for y in cf[x]["s"] if x != b and cf.get(x) else ():
                if y is not None and y != b and y not in seen: seen.add(y); todo.append(y)
        outside = {e for x in seen if cf.get(x) for e in cf[x]["e"]}
        ref = {}
        def setup(E, A, st): ref["A"] = A
        def stop(i, s):
            nd = f.n(i)
            if not code and i in outside: return True
            if i in stopset and s.truths.get("began") == 2: return True
            if i in stopset: s.truths["began"] = s.truths.get("began", 0) + 1
            elif not code and s.truths.get("began") == len(vs) and not s.truths.get("bytes"):
                s.truths["bytes"] = 1       # generated code: the edges on bytes (anchors are CALL's)
                for d in vs:
                    v = key(ref["A"].E.read(s, (ref["A"].fr, d)))
                    for t, y in ((("<", 256, v), False), (("<", v, 257), True), (("<", 255, v), False), (("<", v, 256), True)): s.lits[t] = y
            if nd["k"] == "CXXOperatorCallExpr" and nd.get("op") == "++" and f.path(nd["c"][1]) and f.path(nd["c"][1])[0] in its: return True
            # next meta of the range, or next edge
            if nd["k"] == "UnaryOperator" and nd["op"] == "++" and f.path(nd["c"][0]) and f.path(nd["c"][0])[0] in decl: return True
            return False
        try: out, A = events(P, f, inline, (b, first), stop, setup)
        except AnalysisError as ex:
            if DBG: print("AE", f.name, b, ex)
            continue      # the loop is written in a way this rule does not follow
        for s, why in out:
            if why == "loop" or why is None: continue
            vals = {d: key(A.E.read(s, (A.fr, d))) for d in vs}
            yield_ = (s, vals)
            if code: e = check_edge(f, s, vals, encoded(s.trace), LONG, HALT)
            else: e = check_cond(f, s, vals, [x for x in s.trace if x[0] == "print"])
            if DBG and not code: print(f.name, b, e, vals, [x[1:] for x in s.trace][:5])
            if e == "none": continue
            n += 1; bad = bad or e
    if code and len(ORIENT) > 1: bad = bad or "bounds are exchanged in some of the words emitted for an edge"
    if n: R.check("EMIT", bad is None, "edge in %s (%d paths)" % (f.name, n), f.where(), bad or "")

ORIENT = set()      # where an edge keeps its lower bound, as the encoder reads it

def check_edge(f, s, vals, evs, LONG, HALT):
    if not evs: return "none"
    lo = set(vals.values())
    if evs[0][0] != "opcode_goto": return "none"
    a = evs[0][1]
    if a[0] not in lo or a[1] not in lo: return "a goto is emitted for other bounds than the edge's"
    if a[0] != a[1] and ("'second'" in repr(a[0])) != ("'second'" in repr(a[1])): ORIENT.add("'second'" in repr(a[0]))
    if a[2] == HALT:
        # only when there is no target
        if not any(v and isinstance(t, tuple) and t[0] == "==" and (0 in t[1:] or 0xFFFFFFFF in t[1:]) for t, v in s.lits.items()) and not any((not v) and isinstance(t, tuple) and t[0] != "==" for t, v in s.lits.items()): return "an edge with a target is emitted as a halt (%s)" % sorted(map(repr, s.lits.items()))
        return None if len(evs) == 1 else "a halt is followed by another word"
    if a[2] == LONG:
        if len(evs) != 2 or evs[1][0] != "opcode_long": return "a long goto is not followed by its long index"
        if "index" not in repr(evs[1][1]): return "the long index emitted is not the target's index"
        return None
    if len(evs) != 1: return "a goto is followed by another word"
    if "index" not in repr(a[2]): return "the index of a goto is not the target's index"
    short = any(isinstance(t, tuple) and t[0] == "<" and ((t[1] == LONG and t[2] != a[2] and not v) or (t[1] == a[2] and t[2] == LONG and v)) for t, v in s.lits.items())
    return None if short else "an index that may not fit is emitted in a short goto"

def check_cond(f, s, vals, evs):
    txt = ""; ops_ = {}
    inv = {}
    for d, v in vals.items(): inv.setdefault(v, d)
    for e in evs:
        a = e[1]
        if e[2] == "print_char":
            x = [y for y in a if y in inv]
            txt += "<%s>" % ("%d" % sorted(vals).index(inv[x[0]]) if x else "?")
        elif len(a) > 1 and isinstance(a[1], str): txt += a[1]
    if "<" not in txt or "c1" not in txt or "if (" not in txt: return "none"
    m = re.search(r"if \((.*?)\) (goto|return)", txt)
    if not m: return "none"
    c = m.group(1).replace(" ", "")
    ds = sorted(vals)
    # which of the two is the lower bound: by the test that is printed with both
    eqs = [t for t, v in s.lits.items() if v and isinstance(t, tuple) and t[0] == "==" and set(t[1:]) == set(vals.values())]
    top = [t for t, v in s.lits.items() if v and isinstance(t, tuple) and t[0] == "==" and 255 in t[1:]]
    if re.fullmatch(r"c1==<\d>|<\d>==c1", c): return None if eqs else "a range of bytes is tested as a single byte"
    m2 = re.fullmatch(r"<(\d)><=c1|c1>=<(\d)>", c)
    if m2:
        x = vals[ds[int(m2.group(1) or m2.group(2))]]
        hi = [v for v in vals.values() if v != x]
        return None if top and any(h in t for t in top for h in hi) else "a range of bytes is tested without its upper bound"
    m2 = re.fullmatch(r"<(\d)><=c1&&c1<=<(\d)>", c)
    if m2:
        if m2.group(1) == m2.group(2): return "a range of bytes is tested against one bound"
        return None if len(ORIENT) != 1 or ("'second'" in repr(vals[ds[int(m2.group(1))]])) in ORIENT else "the bounds of a range of bytes are exchanged"
    return "the test of a range of bytes is not understood: " + c

def operand(c, kind, ph, ln, m, tr, jump, pc, why):
    """None, or what is wrong with the use of the operand"""
    want = 1 if jump is None or ln != "long" else 2
    if why is not None and why == c.fetch:
        if jump is not None and kind.startswith("meta"):
            t, n = linear(pc); j = key(jump[1])
            if n or len(t) != 2 or any(q != 1 for x, q in t) or j not in [x for x, q in t] or "opc_" not in repr([x for x, q in t if x != j]): return "the jump is not relative to the start of the code"
        elif pc != ("+", "pc", 1): return "the code pointer does not advance to the next opcode"
    elif ph == 2 and pc != ("+", "pc", want): return "the code pointer does not advance to the next opcode"
    if jump is not None and kind.startswith("meta"):
        v = jump[1]
        if jump[0] == "operand" and not (same(v, "x", 16)): return "the jump is not to the encoded index"
        if jump[0] == "long" and not (v.tag[0] == "&" and 0xFFFFFF in v.tag): return "the long index is not decoded"
    if kind == "take" and ph == 1 and ("cap_",) not in m: return "the accepted sub-pattern is not recorded"
    return None

def metacalls(P, f, metas, inline):
    """meta -> [(node, label printed, arguments)] of the calls printed for it"""
    out = {}
    label = P.globals.get(("reflex::meta_label", None), {}).get("val")
    for b, B in f.cfg.items() if isinstance(f.cfg, dict) else enumerate(f.cfg):
        if not B or B.get("tk") != "SwitchStmt": continue
        c = B["cond"]; root = f.path(c)
        if root is None or len(root) != 1: continue
        for m, v in metas.items():
            E = Sym(P, inline); st = SState(); E.frame += 1; A = SFrame(E, f, E.frame, ("this",), 0)
            st.mem[(A.fr, root[0])] = K(v, 16, 0)
            def stop(i, s):
                return f.k(i) == "CallExpr" and any(f.k(f.strip(a)) == "StringLiteral" and "FSM_META_" in f.nodes[f.strip(a)].get("v", "") for a in f.c(i)[1:])
            last = len(B["e"])
            A.stop = stop; A.out = []
            work = A.switch(st, B, B["s"])
            for s, i in A.walk(work, stop):
                if not isinstance(i, int): continue
                lit = [f.nodes[f.strip(a)]["v"] for a in f.c(i)[1:] if f.k(f.strip(a)) == "StringLiteral"][0]
                mm = re.search(r"FSM_META_(%s|[A-Z]+)\(([^)]*)\)", lit)
                if not mm: continue
                lab = mm.group(1)
                if lab == "%s":
                    lab = "?"
                    for a in f.c(i)[1:]:
                        v2 = A.val(s, a)
                        if isinstance(v2, Ptr) and v2.path and v2.path[0] == "str" and v2.path[1] != lit: lab = v2.path[1]
                out.setdefault(m, []).append((i, lab, [x.strip() for x in mm.group(2).split(",") if x.strip()]))
    return out

def sym_text(t):
    if isinstance(t, tuple):
        if t[0] == "mem": return ".".join(str(x) for x in t[1] if x != "this")
        if t[0] == "!": return "not (" + sym_text(t[1]) + ")"
        if t[0] in ("==", "<", "+", "-", "&", "|") and len(t) == 3: return "%s %s %s" % (sym_text(t[1]), t[0], sym_text(t[2]))
        if t[0] == "call": return "%s(%s)" % (t[1], ", ".join(sym_text(x) for x in t[3]))
        if t[0] == "load": return "*(" + sym_text(t[1]) + ")"
        if t[0] == "bits": return "operand"
        if t[0] in ("fsm", "cast"): return sym_text(t[-1])
        return str(t[0])
    return str(t)

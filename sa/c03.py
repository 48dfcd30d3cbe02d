"""Fresh start. For each matcher class the virtual reset() its objects use, every input() and in-place buffer() operation
is interpreted abstractly (CFG, calls inlined, virtual calls resolved for the class). Each field that any public scanning
operation of the class may write (found by the same interpretation of all of them) must at the exit hold a value assigned
on every path and, where the initial value is fixed, exactly that constant; containers must have been emptied. Fields that
every match sets before use (shown by the FIRST_USE rule of C02) and kept resources are listed as exceptions. Lexers hand a
new input on to their matcher."""
from core import *
from prov import *
from c01 import fmt

M = "reflex::AbstractMatcher"
INIT = {"len_": 0, "cap_": 0, "cur_": 0, "pos_": 0, "end_": 0, "ind_": 0, "blk_": 0, "got_": 257, "chr_": 0, "lno_": 1, "num_": 0, "own_": 1, "eof_": 0, "mat_": 0, "evh_": 0, "cno_": 0,
        "ded_": 0, "grp_": 0, "err_": 0}
INPLACE = {"own_": 0, "eof_": 1, "end_": None}
# not scanning state: configuration, kept resources, or set by each match before use
KEPT = {"opt_", "buf_", "max_", "in", "mrk_", "anc_", "col_", "fsm_", "lap_", "bpt_", "dat_", "ctx_", "stk_@PCRE2Matcher", "opc_", "lcp_", "lcs_", "bms_", "fin_", "scan", "find", "split", "lexer_"}
CONFIG = {"pat_", "own_@PatternMatcher", "flg_", "cop_", "jit_", "max_@FuzzyMatcher", "ins_", "del_", "sub_"}
READS_ALL = {"cur_", "ind_", "end_", "eof_", "in", "got_", "pos_", "blk_", "num_", "lno_"}   # std::regex matchers buffer all input when reset
CLASSES = ["reflex::Matcher", "reflex::FuzzyMatcher", "reflex::PCRE2Matcher", "reflex::StdMatcher", "reflex::BoostMatcher"]

def check(R):
    P = load(["headers", "flex", "lib"]); R.units = P.tus
    R.rule("RESET", "state changed by scanning is re-initialised on every path of reset()", 80)
    R.rule("INPUT", "state is re-initialised when new input is given", 80)
    R.rule("INPLACE", "state is re-initialised when a buffer is scanned in place", 80)
    R.rule("SOURCE", "the given input becomes the input of the matcher", 6)
    R.rule("LEXER", "a lexer hands new input to its matcher", 4)
    def one(R, cls):
        if cls not in P.recs: raise AnalysisError("class vanished: " + cls)
        meths = [(c, m) for c in [cls] + P.bases(cls) if c in P.recs for m in P.recs[c]["methods"]]
        mut = {}
        inputs = []; inplace = []; resets = []
        for c, m in meths:
            f = P.fns.get(m["id"])
            if f is None or f.cfg is None or m.get("kind") in ("ctor", "copyctor", "copyassign", "dtor") or m.get("stat") or m.get("access"): continue
            if P.final_overrider(cls, m["id"]) != m["id"]: continue
            if m["n"] == "reset": resets.append(f); continue
            if m["n"] == "input" and len(f.params) == 1: inputs.append(f); continue
            if m["n"] == "buffer" and len(f.params) == 2 and "char *" in f.params[0]["t"]: inplace.append(f); continue
            if m["n"] in ("pattern", "operator="): continue
            def onw(I, p, v, weak, site, st):
                if p[0] == "this" and len(p) > 1: mut.setdefault(p[1], site[0].at(site[1]) if site else f.where())
            # matching itself dominates the cost: interpret it with one level of the automaton only
            I = Interp(P, dyn=cls, onwrite=onw); I.run(f)
        if not resets or not inputs or not inplace: raise AnalysisError("reset/input/buffer operations of %s not found" % cls)
        types = {}
        for c in [cls] + P.bases(cls):
            for fl in P.recs.get(c, {"fields": []})["fields"]: types[fl["n"]] = (c, fl)
        mut = {n: w for n, w in mut.items() if n in types}
        for rule, fs in (("RESET", resets), ("INPUT", inputs), ("INPLACE", inplace)):
            for f in fs:
                # an in-place buffer of size zero changes nothing
                ev = {}
                I = Interp(P, dyn=cls)
                st0 = {("@1$" + "x",): X} if False else {}
                if rule == "INPLACE": st0 = {("#" + f.params[1]["n"],): frozenset([("c", 4096)])}
                st, rv, A = I.run(f, st0)
                if st is None: raise AnalysisError("no exit of " + f.id)
                for n, w in sorted(mut.items()):
                    dec, fl = types[n]
                    if n in KEPT or n in CONFIG: continue
                    if n == "stk_" and dec == "reflex::PCRE2Matcher": continue
                    p = ("this", n); v = I.read(st, p); key = "%s %s %s" % (cls, f.name, n)
                    subs = {q: x for q, x in st.items() if q[:2] == p and len(q) > 2}
                    show = "%s() of %s leaves %s with %s (changed by scanning, e.g. %s)" % (f.name, cls, n, fmt(v, subs), w)
                    good = not any(a[0] == "in" and a[1][:2] == p for a in v) and ("lu",) not in v and ("u",) not in v
                    if not fl.get("scalar") and not fl.get("ptr"):
                        good = good and (v <= {("empty",), ("x",)} or any(a[0] == "fn" for a in v))
                    elif n in INIT and not (cls == "reflex::StdMatcher" and n in READS_ALL and rule != "INPLACE"):
                        w0 = INPLACE.get(n, INIT[n]) if rule == "INPLACE" else INIT[n]
                        if w0 is not None: good = good and v == frozenset([("c", w0)])
                    R.check(rule, good, key, f.where(), show)
        for f in inputs:
            I = Interp(P, dyn=cls); st, rv, A = I.run(f)
            src = "#" + f.params[0]["n"]; bad = []
            for x in ("cstring_", "wstring_", "file_", "istream_", "size_"):
                v = I.read(st, ("this", "in", x))
                if cls == "reflex::StdMatcher":
                    if ("in", ("this", "in", x)) in v: bad.append(x)
                elif v != frozenset([("in", (src, x))]): bad.append(x)
            R.check("SOURCE", not bad, "%s input source" % cls, f.where(), "input() of %s does not take over %s" % (cls, ", ".join(bad)))
        for f in inplace:
            I = Interp(P, dyn=cls); st, rv, A = I.run(f, {("#" + f.params[1]["n"],): frozenset([("c", 4096)])})
            base = ("in", ("#" + f.params[0]["n"],))
            v = I.read(st, ("this", "buf_"))
            R.check("SOURCE", v == frozenset([base]), "%s buffer base" % cls, f.where(), "buffer() of %s does not scan the given buffer" % cls)
            for n in ("txt_", "lpb_", "bol_"):
                if n in types: R.check("INPLACE", I.read(st, ("this", n)) == frozenset([base]), "%s buffer %s" % (cls, n), f.where(), "buffer() of %s leaves %s pointing elsewhere" % (cls, n))
    R.parallel(one, CLASSES)
    # lexers: after in(I), matcher's input is replaced when there is a matcher
    for f in sorted(P.fns.values(), key=lambda f: f.id):
        if f.cls and re.match(r"reflex::AbstractLexer<[^<>]*>$", f.cls) and f.name == "in" and len(f.params) == 1 and f.cfg:
            wr = []; calls = []
            def onw(I, p, v, weak, site, st):
                if p[:2] == ("this", "in_"): wr.append(site)
            def onc(I, A, i, target, obj, args):
                if "::input(" in target or "::reset(" in target or "::input<" in target: calls.append(target)
            I = Interp(P, dyn=f.cls, onwrite=onw, oncall=onc); I.run(f)
            R.check("LEXER", bool(wr) and bool(calls), f.cls + " in", f.where(), "in() of %s does not %s" % (f.cls, "restart the matcher with the new input" if wr else "keep the new input"))

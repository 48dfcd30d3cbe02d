"""No residue of a previous pattern. Every operation that assigns a new regex, opcode table or FSM to a Pattern, and every
pattern() setter of every matcher class, is interpreted abstractly (CFG, calls inlined, virtual calls resolved per class).
At its exit no product of the previous pattern may survive on any path: sub-pattern lists, reachability, tree and automaton,
opcodes, limits and options of a Pattern are cleared or set, and what a matcher derives from its pattern (search table,
regex iterator, compiled PCRE2 code) is dropped or derived again. Parsing and compiling themselves get no credit."""
from core import *
from prov import *
from c01 import fmt

PRODUCTS = ["opt_", "rex_", "end_", "acc_", "vno_", "eno_", "opc_", "nop_", "fsm_", "len_", "min_", "one_", "pms_", "vms_", "ems_", "wms_", "tfa_", "dfa_"]
ZEROED = {"nop_", "vno_", "eno_"}
# class -> what it derives from its pattern
DERIVED = {"reflex::Matcher": {"bmd_": "zero"}, "reflex::FuzzyMatcher": {"bmd_": "zero"},
           "reflex::StdMatcher": {"itr_": "fin_"}, "reflex::BoostMatcher": {"itr_": "fin_"},
           "reflex::PCRE2Matcher": {"opc_": "new", "dat_": "new", "jit_": "new"}}
SUB = {"reflex::StdEcmaMatcher": "reflex::StdMatcher", "reflex::StdPosixMatcher": "reflex::StdMatcher", "reflex::BoostPosixMatcher": "reflex::BoostMatcher",
       "reflex::BoostPerlMatcher": "reflex::BoostMatcher", "reflex::PCRE2UTFMatcher": "reflex::PCRE2Matcher"}

def check(R):
    P = load(["headers", "flex", "lib"]); R.units = P.tus
    R.rule("ASSIGN", "assigning to a pattern leaves nothing of the previous one", 150)
    R.rule("DERIVED", "what a matcher derived from its old pattern is dropped or derived again", 40)
    R.rule("PATTERN", "the matcher uses the given pattern", 40)
    R.rule("TREE", "clearing an automaton releases its nodes and forgets its root", 2)
    cls = "reflex::Pattern"; names = {f["n"] for f in P.fields(cls)}
    nf = 0
    for f in sorted((f for f in P.fns.values() if f.cls == cls and f.cfg and f.params and f.name in ("assign", "operator=")), key=lambda f: f.id):
        I = Interp(P, dyn=cls, noinline={"parse", "compile", "assemble"}); st, _, _ = I.run(f); nf += 1
        if st is None: raise AnalysisError("no exit of " + f.id)
        for n in PRODUCTS:
            if n not in names: continue
            p = ("this", n); subs = {q: x for q, x in st.items() if q[:2] == p and len(q) > 2}
            v = st.get(p) if p in st or not subs else None
            if v is None and not subs: v = I.default(p)
            olds = []
            mem = list(subs.items()) + ([(p, v)] if v is not None else [])
            for q, x in mem:
                if any(a[0] == "in" and a[1][0] == "this" for a in x) and not (n in ("tfa_", "dfa_") and len(q) == 2 and subs): olds.append(".".join(q))
            if n == "tfa_" and ("in", ("this", "tfa_", "list")) in I.read(st, ("this", "tfa_", "list")): olds.append("tfa_.list")
            if n == "tfa_" and ("in", ("this", "tfa_", "tree")) in I.read(st, ("this", "tfa_", "tree")): olds.append("tfa_.tree")
            if n == "dfa_" and ("in", ("this", "dfa_", "list")) in I.read(st, ("this", "dfa_", "list")): olds.append("dfa_.list")
            if n == "opt_":
                for o in P.recs.get("reflex::Pattern::Option", {"fields": []})["fields"]:
                    q = ("this", "opt_", o["n"])
                    if any(a[0] == "in" and a[1][0] == "this" for a in I.read(st, q)): olds.append("opt_." + o["n"])
            sig = "%s(%s)" % (f.name, ", ".join(p_["t"][:24] for p_ in f.params))
            R.check("ASSIGN", not olds, "%s %s" % (f.id, n), f.where(), "Pattern::%s leaves %s of the previous pattern: %s" % (sig, ", ".join(olds), fmt(v, subs)))
    if nf < 8: raise AnalysisError("only %d assignment operations of Pattern found" % nf)
    for c in ("reflex::Pattern::Tree", "reflex::Pattern::DFA"):
        f = P.fn(c + "::clear()"); I = Interp(P); st, _, _ = I.run(f)
        bad = [x["n"] for x in P.recs[c]["fields"] if any(a[0] == "in" for a in I.read(st, ("this", x["n"]))) ]
        R.check("TREE", not bad, c, f.where(), "%s::clear() keeps %s" % (c, ", ".join(bad)))
    for cls in sorted(set(DERIVED) | set(SUB)):
        if cls not in P.recs: raise AnalysisError("class vanished: " + cls)
        want = DERIVED.get(cls) or DERIVED[SUB[cls]]
        fn = 0
        for c in [cls] + P.bases(cls):
            for m in P.recs.get(c, {"methods": []})["methods"]:
                f = P.fns.get(m["id"])
                if f is None or f.cfg is None or m["n"] != "pattern" or not f.params or m.get("access"): continue
                if P.final_overrider(cls, m["id"]) != m["id"]: continue
                fn += 1
                I = Interp(P, dyn=cls); st, _, _ = I.run(f)
                key = "%s %s" % (cls, f.id)
                for n, how in want.items():
                    v = I.read(st, ("this", n)); old = ("in", ("this", n))
                    good = old not in v
                    if how == "zero": good = v == frozenset([("c", 0)])
                    if how == "fin_": good = good and v <= {("in", ("this", "fin_")), ("empty",), ("x",)} | {a for a in v if a[0] == "fn"}
                    R.check("DERIVED", good, key + " " + n, f.where(), "%s::pattern(%s) leaves %s with %s" % (cls, f.params[0]["t"], n, fmt(v, {})))
                v = I.read(st, ("this", "pat_"))
                # some path takes the new pattern; the old one stays only where it is the same object
                R.check("PATTERN", any(a[0] in ("new", "addr") or (a[0] == "in" and a[1][0] != "this") or a == ("x",) for a in v), key, f.where(), "%s::pattern(%s) does not take the given pattern" % (cls, f.params[0]["t"]))
        if fn < 4: raise AnalysisError("only %d pattern() operations of %s found" % (fn, cls))

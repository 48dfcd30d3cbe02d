"""Initialisation. Every user-written constructor (copy constructors included) of the library's classes is interpreted
abstractly; at its normal exit no scalar or pointer field, own or inherited, may still hold the value it had before
construction (on any path). The five fields of Matcher that construction leaves to the first match (FIRST_USE) are
instead shown not to be read before they are written by any public operation started from the constructed state, and the
prediction arrays of a compiled pattern are shown to be set before they are updated."""
from core import *
from prov import *

FIRST_USE = {"reflex::Matcher": {"col_", "mrk_", "anc_", "lcp_", "lcs_"}}
HEAVY = {"reflex::Pattern": {"parse", "compile", "assemble"}}   # run after all members are set; they get no credit

def scalars(P, cls, pre=(), depth=0):
    for fl in P.recs[cls]["fields"]:
        if fl.get("arr") or fl["t"].endswith("&"): continue
        if fl.get("scalar"): yield pre + (fl["n"],), fl
        elif fl.get("rec") in P.recs and depth < 3: yield from scalars(P, fl["rec"], pre + (fl["n"],), depth + 1)

def check(R):
    P = load(["headers", "flex", "lib"]); R.units = P.tus
    R.rule("INIT", "scalar field holds a value given during construction", 1500)
    R.rule("FIRST_USE", "field is written before it is read in a public operation", 30)
    R.rule("ARRAYS", "prediction arrays are set before they are updated", 3)
    ctors = [f for f in sorted(P.fns.values(), key=lambda f: f.id) if f.kind in ("ctor", "copyctor") and f.cls in P.recs and f.cfg is not None]
    ctors = [f for f in ctors if not f.cls.startswith("reflex::lazy_") and "(lambda" not in f.cls]   # iterator helpers of set operations: no scalar state of their own
    seen = {f.cls for f in ctors}
    def one(R, f):
        cls = f.cls
        I = Interp(P, dyn=cls, noinline=HEAVY.get(cls, ())); st, rv, A = I.run(f)
        if st is None: raise AnalysisError("no normal exit from " + f.id)
        for dec in [cls] + P.bases(cls):
            if dec not in P.recs: continue
            for pp, fl in scalars(P, dec):
                p = ("this",) + pp
                if pp[0] in FIRST_USE.get(dec, ()): continue
                v = I.read(st, p)
                sig = re.sub(r"std::char_traits<char>, |, std::allocator<char>|std::basic_string<char>", "", f.id)
                R.check("INIT", not any(a[0] == "u" or a == ("in", p) for a in v), "%s in %s" % (".".join(pp), f.id), f.where(),
                        "constructor %s leaves %s of %s uninitialised" % (sig[:160], ".".join(pp), dec))
    R.parallel(one, ctors)
    for c in ("reflex::Pattern", "reflex::Matcher", "reflex::Input", "reflex::BufferedInput", "reflex::Bits", "reflex::PCRE2Matcher", "reflex::StdMatcher", "reflex::BoostMatcher", "reflex::FuzzyMatcher", "reflex::AbstractMatcher"):
        if c not in seen: raise AnalysisError("no constructor analysed for " + c)
    # first use
    for cls, flds in FIRST_USE.items():
        ctors = sorted((f for f in P.fns.values() if f.cls == cls and f.kind == "ctor" and f.cfg), key=lambda f: (len(f.params), f.id))
        I = Interp(P, dyn=cls); st0, _, _ = I.run(ctors[0])
        st0 = {p: v for p, v in st0.items() if p[0] == "this"}
        for c in [cls] + P.bases(cls):
            for m in P.recs[c]["methods"]:
                f = P.fns.get(m["id"])
                if f is None or f.cfg is None or m.get("kind") in ("ctor", "copyctor", "copyassign") or m.get("stat") or m.get("access"): continue
                if P.final_overrider(cls, m["id"]) != m["id"] or f.name.startswith("FSM_"): continue
                hit = {}
                def onread(I, p, v, site, st):
                    if p[0] == "this" and len(p) > 1 and p[1] in flds and any(a[0] == "u" or a == ("in", p) for a in v): hit.setdefault(p[1], site)
                I = Interp(P, dyn=cls, onread=onread); I.run(f, st0)
                for x, site in hit.items(): R.bad("FIRST_USE", "%s read in %s" % (x, f.id), site[0].at(site[1]), "%s of %s may be read before it is written, entered from %s" % (x, cls, f.id))
                if not hit: R.ok("FIRST_USE", f.id)
    # arrays
    f = P.fn("reflex::Pattern::predict_match_dfa(reflex::Pattern::DFA::State *)")
    hit = {}; got = set()
    def onread(I, p, v, site, st):
        if p[0] == "this" and len(p) == 3 and p[1] in ("bit_", "pmh_", "pma_"):
            got.add(p[1])
            if ("in", p) in v: hit.setdefault(p[1], site)
    I = Interp(P, onread=onread); I.run(f)
    for a in ("bit_", "pmh_", "pma_"):
        if a not in got: raise AnalysisError("no update of %s found in predict_match_dfa" % a)
        s = hit.get(a)
        R.check("ARRAYS", s is None, "prediction array " + a, s[0].at(s[1]) if s else f.where(), "%s is updated before all of it has been set" % a)
    for d, w in I.partial: R.bad("ARRAYS", "partial " + ".".join(d), w, "only part of %s is set" % ".".join(d))

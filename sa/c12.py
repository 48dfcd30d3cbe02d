"""Regex text and option strings are never read past their end. The regex parser of Pattern and its option reader, the option readers of all matchers, and the regex
converter with all its helpers, are interpreted over the relational domain of text cursors of cur.py (differences between cursors and
text lengths, characters known at cursors, found substrings, ghost anchors), helpers inlined or summarised, to a fixpoint. Every
character they read lies at or before the terminator, every span they copy or pass on lies in the text with a length that is not
negative, every position the parser records lies in the regex, and the escape character option is never the terminator."""
from text import *

POSN = "reflex::Pattern::Position"
class PHooks(Hooks):
    """positions of the regex keep to the text: what a Position is made of lies in it, so that loc() does too"""
    def call(self, F, st, i):
        fn = F.fn; nd = fn.nodes[i]
        if nd["k"] == "CXXMemberCallExpr" and nd.get("cls") == POSN:
            if nd.get("n") == "loc":
                r = "%s@r%d" % (F.fr, i); F.setvar(st, r, None); st.z.add("", r, 0); st.z.add(r, "#S:this.rex_", 0)
                F.done(st, i, I(r))
            else: F.done(st, i, None)
            return [st]
        return Hooks.call(self, F, st, i)
    def construct(self, F, st, i):
        fn = F.fn; nd = fn.nodes[i]; c = nd.get("c", ())
        if nd.get("cls") == POSN and len(c) == 1 and not nd.get("copy") and fn.cls == "reflex::Pattern":
            t = fn.nodes[fn.strip(c[0])].get("t", "").replace("const ", "")
            if INTT.match(t) and not self.accepting(fn, i):
                v = F.val(st, c[0])
                if v is not None and v[0] == "i":
                    if v[1] != "" or v[2] != NPOS: self.within(F, st, ("#S:this.rex_", v[1], v[2]), i, "POSITION", "the position " + fn.text(c[0])[:40])
                elif v is not None: self.ob(F, i, "POSITION", False, "it is not known which position %s is" % fn.text(c[0])[:40])
                else: self.ob(F, i, "POSITION", False, "it is not known which position %s is" % fn.text(c[0])[:40])
            F.done(st, i, None); return
        Hooks.construct(self, F, st, i)
    def accepting(self, fn, i):
        """Position(choice).accept(true): not a position of the regex"""
        p = fn.par.get(i)
        while p is not None and fn.k(p) in STRIP | CASTS | {"MaterializeTemporaryExpr", "CXXBindTemporaryExpr", "ExprWithCleanups"}: p = fn.par.get(p)
        return p is not None and fn.k(p) == "MemberExpr" and fn.nodes[p].get("n") == "accept"
    def stored(self, F, st, x, v, i=None):
        if x in self.nonzero_vars and i is not None:
            ok = v is not None and ((v[0] == "i" and (v[2] != 0 if v[1] == "" else (st.z.get("", v[1]) is not None and st.z.get("", v[1]) < v[2]))) or
                                    (v[0] == "ch" and (F.chconst(st, v) not in (None, 0) or (st.z.get(v[2], v[1]) is not None and st.z.get(v[2], v[1]) <= -v[3] - 1))) or
                                    (v[0] == "cv" and st.V.get(v[1]) not in (None, 0)))
            self.ob(F, i, "ESCAPE", ok, "the escape character may be set to the terminator")

PARSE = {"parse", "parse1", "parse2", "parse3", "parse4", "parse_esc"}
def reach(P, roots, ok):
    seen = set(); work = [r.id for r in roots]
    while work:
        x = work.pop()
        if x in seen: continue
        seen.add(x)
        for nd in P.fns[x].nodes:
            g = P.fns.get(nd.get("fn"))
            if g is not None and g.cfg and g.id not in seen and ok(g): work.append(g.id)
    return seen

def outside_loops(fn):
    """blocks that belong to no loop"""
    o = rpo(fn); pred = {}
    for b, B in fn.cfg.items():
        for s in B["s"]:
            if s is not None: pred.setdefault(s, []).append(b)
    body = set()
    for h in loops(fn):
        work = [b for b in pred.get(h, ()) if b in o and o[h] <= o[b]]; seen = {h}
        while work:
            b = work.pop()
            if b in seen: continue
            seen.add(b); work.extend(pred.get(b, ()))
        body |= seen
    return set(fn.cfg) - body

def part(S, which):
    P = load(["lib/pattern", "lib/convert", "headers"])
    if which == "pattern":
        ok = lambda f: f.cfg and f.file.endswith(("lib/pattern.cpp", "reflex/pattern.h")) and f.cls == "reflex::Pattern"
        roots = [f for f in P.fns.values() if ok(f) and f.name in ("init_options", "parse")]
        if len(roots) < 2: raise AnalysisError("the option reader or the parser of Pattern vanished")
        ids = reach(P, roots, ok); scope = lambda f: f.id in ids
        H = PHooks(P, scope); H.nonzero_vars = {"this.opt_.e"}; C = Cur(P, H); C.over = 2
    elif which == "options":
        P = load(["lib/pattern", "lib/matcher", "headers"])
        roots = [f for f in P.fns.values() if f.cfg and f.name in ("reset", "init") and f.cls and (f.cls == "reflex::AbstractMatcher" or "reflex::AbstractMatcher" in P.bases(f.cls)) and any(p["t"].startswith("const char *") for p in f.params)]
        if not roots: raise AnalysisError("the option readers of matchers vanished")
        H = Hooks(P, lambda f: f.file.startswith(REPO) and f.cfg and any("char *" in p["t"] for p in f.params) and f.id not in {r.id for r in roots}); C = Cur(P, H); C.over = 0
    else:
        scope = lambda f: f.file.endswith("lib/convert.cpp") and f.cfg
        roots = [f for f in P.fns.values() if scope(f) and f.name == "convert" and f.params and "char *" in f.params[0]["t"]]
        if not roots: raise AnalysisError("the converter's entry vanished")
        H = Hooks(P, scope); C = Cur(P, H); C.over = 0
    C.solve(roots)
    n = {}
    for key, (ok, what, F, j) in sorted(H.obs.items(), key=lambda x: str(x[0])):
        fn = F.fn
        if not ok and which == "converter" and key[0] == "SPAN" and fn.id == roots[0].id:
            # what is left of the regex when the loop of the converter has ended: not decided (see DESIGN.md)
            out = outside_loops(fn)
            if any(j in fn.walk(e) for b in out for e in fn.cfg[b]["e"] if isinstance(e, int)): S.note("not decided: %s at %s" % (what, fn.at(j))); continue
        n[(key[0], fn.id, fn.text(j))] = k = n.get((key[0], fn.id, fn.text(j)), 0) + 1
        S.check(key[0], ok, "%s in %s%s" % (fn.text(j)[:60], fn.name, " (%d)" % k if k > 1 else ""), fn.at(j), what)
    S.note("%s: %d functions, %d block states" % (which, len({f for f, b in C.visited}), C.nodes))

def check(R):
    P = load(["lib/pattern", "lib/convert", "headers"]); R.units = P.tus
    R.rule("READ", "character read lies at or before the terminator of its text", 150)
    R.rule("SPAN", "start of a stretch of text that is copied, compared or handed on lies in the text", 50)
    R.rule("COUNT", "length of a stretch of text is not negative and ends in the text", 30)
    R.rule("POSITION", "position of the regex recorded by the parser lies in the regex", 5)
    R.rule("ESCAPE", "escape character is not the terminator", 1)
    R.parallel(part, ["converter", "pattern", "options"])
    R.assumption("Integer arithmetic on positions does not wrap around (regexes are shorter than 2^63 characters); standard string functions behave as documented; the string of a macro is terminated.")

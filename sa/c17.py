"""Pairing of rules and actions in the generator. The alternatives of the combined pattern, the case labels of the generated scanner, the
numbers given to Pattern::reachable and the rows of the performance report are all produced by loops over the rules of a start condition.
Each loop's body is interpreted for every kind of rule (end-of-file rule or not; action "|" or not; what earlier rules left in local flags
unknown) over all paths: COMPOSE, NUMBER: a rule adds an alternative, advances the number and gets a label exactly when it is not an
end-of-file rule, and the number is the one of its alternative (from 1, anew for each start condition). REPORT: a row exactly for rules with
a pattern and an action of their own (from 0). OPTION: each option consulted is in the table of options that can be given. LIBRARY: each
name of the library table can be selected."""
from core import *
from aff import loops
LEVEL = "other"

def lit(f, i):
    """string constants in an operand"""
    return [f.n(j)["v"] for j in f.walk(i) if f.k(j) == "StringLiteral"]
def isfield(f, i, name):
    nd = f.n(f.strip(i)); return nd["k"] == "MemberExpr" and nd["d"].endswith(name)

class Loop:
    def __init__(self, P, f): self.P = P; self.f = f
    def atom(self, f, i):
        """(name, truth when it holds) of a comparison of a rule's regex with <<EOF>> or of its action with |"""
        nd = f.n(i); c = nd.get("c", ())
        if nd["k"] == "CXXOperatorCallExpr" and nd.get("op") in ("==", "!="): a = c[1:3]
        elif nd["k"] == "CXXMemberCallExpr" and nd.get("n") == "compare" and len(c) == 2:
            me = f.n(f.strip(c[0])); a = [me["c"][0], c[1]] if me.get("c") else []
        else: return None
        if len(a) != 2: return None
        for x, y in ((a[0], a[1]), (a[1], a[0])):
            for fld, s, n in (("Rule::regex", "<<EOF>>", "eof"), ("Code::line", "|", "bar")):
                if isfield(f, x, fld) and lit(f, y) == [s]: return n, nd.get("op") != "!="
        return None
    def ev(self, f, i, env, depth=0):
        i = f.strip(i); nd = f.n(i); k = nd["k"]; c = nd.get("c", ())
        if isinstance(nd.get("cv"), int): return bool(nd["cv"])
        if k == "CXXBoolLiteralExpr": return bool(nd.get("v"))
        if k == "UnaryOperator" and nd["op"] == "!":
            v = self.ev(f, c[0], env, depth); return None if v is None else not v
        if k == "BinaryOperator" and nd["op"] in ("&&", "||"):
            a, b = self.ev(f, c[0], env, depth), self.ev(f, c[1], env, depth); s = nd["op"] == "||"
            if a is s or b is s: return s
            return None if a is None or b is None else not s
        if k == "BinaryOperator" and nd["op"] in ("==", "!="):
            for x, y in ((c[0], c[1]), (c[1], c[0])):
                a = self.atom(f, f.strip(x))
                if a and f.n(f.strip(x))["k"] == "CXXMemberCallExpr" and f.n(y).get("cv") == 0: return env[a[0]] == (nd["op"] == "==")
            a, b = self.ev(f, c[0], env, depth), self.ev(f, c[1], env, depth)
            if "bool" in (f.n(f.strip(c[0])).get("t") or "") and a is not None and b is not None: return (a == b) == (nd["op"] == "==")
            return None
        if k == "BinaryOperator" and nd["op"] == "=": return self.ev(f, c[1], env, depth)
        if k == "ConditionalOperator":
            t = self.ev(f, c[0], env, depth)
            if t is not None: return self.ev(f, c[1] if t else c[2], env, depth)
            a, b = self.ev(f, c[1], env, depth), self.ev(f, c[2], env, depth); return a if a == b else None
        a = self.atom(f, i)
        if a: return env[a[0]] == a[1] if nd["k"] == "CXXOperatorCallExpr" else not env[a[0]]
        if k == "DeclRefExpr" and depth == 0: return env.get(nd.get("d"))
        if nd.get("fn") in self.P.fns and depth < 3:
            g = self.P.fns[nd["fn"]]; R = [m for m in g.nodes if m["k"] == "ReturnStmt" and m.get("c")]
            if len(R) == 1: return self.ev(g, R[0]["c"][0], env, depth + 1)
        return None
    def mentions(self, f, i, depth=0):
        for j in f.walk(i):
            if self.atom(f, j): return True
            g = self.P.fns.get(f.n(j).get("fn"))
            if g is not None and depth < 2 and len(g.nodes) < 60 and any(self.atom(g, x) for x in range(len(g.nodes))): return True
        return False
    def own(self, h, L):
        """blocks of a loop outside the loops in it"""
        B = set(L[h])
        for x, b in L.items():
            if x != h and x in B and len(b) < len(L[h]): B -= b
        return B
    def about(self, h, L):
        f = self.f
        for b in self.own(h, L):
            for e in f.cfg[b]["e"]:
                if isinstance(e, int) and (self.atom(f, e) or f.k(e) == "MemberExpr" and f.n(e)["d"].startswith("Reflex::Rule::")): return True
                if isinstance(e, int) and f.n(e).get("fn") in self.P.fns and self.mentions(f, e): return True
        return False
    def run(self, h, body, eof, bar, count, sinks):
        """paths of one iteration -> set of (completed, advances, ((sink, advances before), ...))"""
        f = self.f; out = set(); seen = set()
        def key(b, env, adv, hits, past): return (b, frozenset(env.items()), adv, hits, past)
        work = [(h, {"eof": eof, "bar": bar}, 0, (), False, True)]
        while work:
            b, env, adv, hits, past, first = work.pop()
            if b == h and not first: out.add((True, adv, hits)); continue
            if b not in body:
                if past: out.add((False, adv, hits))
                continue
            kk = key(b, env, adv, hits, past)
            if not first and kk in seen: continue
            seen.add(kk)
            if len(seen) > 20000: return None
            env = dict(env); B = f.cfg[b]
            for e in B["e"]:
                if not isinstance(e, int): continue
                nd = f.n(e)
                if e in sinks:
                    if len(hits) < 4: hits += ((e, adv),)
                if self.atom(f, e) : past = True
                if nd["k"] == "UnaryOperator" and nd["op"] in ("++", "--") and f.n(f.strip(nd["c"][0])).get("d") == count: adv += 1 if nd["op"] == "++" else -1
                elif nd["k"] in ("CompoundAssignOperator", "BinaryOperator") and nd["op"] in ("+=", "-=", "=") and f.n(f.strip(nd["c"][0])).get("d") == count:
                    v = f.n(nd["c"][1]).get("cv")
                    if nd["op"] == "+=" and v is None:
                        t = self.ev(f, nd["c"][1], env); v = int(t) if t is not None and "bool" in (f.n(f.strip(nd["c"][1])).get("t") or "") else None
                    if nd["op"] == "+=" and isinstance(v, int): adv += v
                    else:
                        r = [f.n(j) for j in f.walk(nd["c"][1])]
                        if nd["op"] == "=" and any(x.get("d") == count for x in r) and any(x["k"] == "BinaryOperator" and x["op"] == "+" for x in r): adv += 1
                        else: return None
                elif nd["k"] == "BinaryOperator" and nd["op"] == "=" and "bool" in (nd.get("t") or ""):
                    d = f.n(f.strip(nd["c"][0])).get("d"); v = self.ev(f, nd["c"][1], env)
                    if v is None: env.pop(d, None)
                    else: env[d] = v
                elif nd["k"] == "DeclStmt":
                    for d in nd["decls"]:
                        if d.get("i", -1) >= 0 and "bool" in (d.get("t") or f.n(d["i"]).get("t") or ""):
                            v = self.ev(f, d["i"], env)
                            if v is None: env.pop(d["d"], None)
                            else: env[d["d"]] = v
            if B.get("noret"): continue
            succ = B["s"]
            if len(succ) == 2 and "cond" in B and B.get("tk") != "SwitchStmt":
                c = B.get("lc", B["cond"]); v = self.ev(f, c, env)
                for t, x in ((True, succ[0]), (False, succ[1])):
                    if x is None or v is not None and v != t: continue
                    e2 = dict(env); i = f.strip(c); neg = False
                    while f.k(i) == "UnaryOperator" and f.n(i)["op"] == "!": neg = not neg; i = f.strip(f.n(i)["c"][0])
                    if f.k(i) == "DeclRefExpr" and v is None and "bool" in (f.n(i).get("t") or ""): e2[f.n(i)["d"]] = t != neg
                    work.append((x, e2, adv, hits, past, False))
            else:
                for x in succ:
                    if x is not None: work.append((x, env, adv, hits, past, False))
        return out

def sinks(P, f):
    """[(node, kind, argument node or None)]"""
    out = []
    for i, nd in enumerate(f.nodes):
        c = nd.get("c", ())
        if nd["k"] == "CXXOperatorCallExpr" and nd.get("op") == "<<" and len(c) > 2:
            t = f.n(f.strip(c[2])).get("t") or ""
            if not re.search(r"\b(int|long|short|size_t)\b", t) or "char" in t: continue
            l = f.n(f.strip(c[1]))
            s = lit(f, l["c"][2]) if l["k"] == "CXXOperatorCallExpr" and l.get("op") == "<<" and len(l["c"]) > 2 else []
            if not s: continue
            if re.search(r"(^|\s)case $", s[-1]): out.append((i, "alt", c[2]))
            elif re.search(r"_(rule|size|time)\[$", s[-1]): out.append((i, "row", c[2]))
        elif nd["k"] == "CXXMemberCallExpr" and nd.get("n") == "reachable" and len(c) == 2: out.append((i, "alt", c[1]))
        elif nd["k"] == "CXXMemberCallExpr" and nd.get("n") == "append" and len(c) > 1 and isfield(f, c[1], "Rule::regex"): out.append((i, "compose", None))
        elif nd["k"] == "CXXOperatorCallExpr" and nd.get("op") == "+=" and len(c) > 2 and any(isfield(f, j, "Rule::regex") for j in f.walk(c[2])): out.append((i, "compose", None))
    return out

def check(R):
    P = load(["src"]); R.units = P.tus
    R.rule("COMPOSE", "a rule adds an alternative to the combined pattern exactly when it is not an end-of-file rule", 1)
    R.rule("NUMBER", "rule numbers follow the alternatives of the combined pattern", 2)
    R.rule("REPORT", "rows of the report are those of the rules with a pattern and an action of their own", 3)
    R.rule("OPTION", "an option that is consulted can be given", 40)
    R.rule("LIBRARY", "a name in the library table can be selected", 4)
    # sinks whose number is a parameter belong to the callers
    todo = []; S = {}
    for f in P.fns.values():
        if f.cfg is None or not f.file.startswith(REPO): continue
        for i, kind, a in sinks(P, f): todo.append((f, i, kind, a))
    callers = {}
    for f in P.fns.values():
        for i, nd in enumerate(f.nodes):
            if nd.get("fn") in P.fns: callers.setdefault(nd["fn"], []).append((f, i))
    n = 0; lifted = set()
    while n < len(todo) and n < 500:
        f, i, kind, a = todo[n]; n += 1
        L = loops(f)
        inn = [h for h, b in L.items() if any(i in [e for e in f.cfg[x]["e"] if isinstance(e, int)] for x in b)]
        d = None; post = False
        if a is not None:
            x = f.n(f.strip(a))
            if x["k"] == "UnaryOperator" and x["op"] in ("++",): post = not x.get("pre") and f.text(f.strip(a)).rstrip().endswith("++"); x = f.n(f.strip(x["c"][0]))
            if x["k"] != "DeclRefExpr": continue
            d = x["d"]
            ps = [q["d"] for q in f.params]
            if d in ps and (f.id, ps.index(d), kind) not in lifted:
                lifted.add((f.id, ps.index(d), kind))
                for g, j in callers.get(f.id, ()):
                    args = g.n(j)["c"][1:]
                    if len(args) > ps.index(d): todo.append((g, j, kind, args[ps.index(d)]))
                continue
        else:
            if not inn and (f.id, None, kind) not in lifted:
                lifted.add((f.id, None, kind))
                for g, j in callers.get(f.id, ()): todo.append((g, j, kind, None))
                continue
        S.setdefault((f.id, d, kind), []).append((i, post))
    items = sorted(S.items(), key=lambda x: str(x[0]))
    for (fid, d, kind), L0 in items:
        f = P.fns[fid]; A = Loop(P, f); LP = loops(f); name = (d or "").split(":")[-1]
        def blk(i): return [b for b, B in f.cfg.items() if i in [e for e in B["e"] if isinstance(e, int)]]
        def inner(i):
            bs = blk(i); hs = [h for h, b in LP.items() if bs and bs[0] in b]
            return min(hs, key=lambda h: len(LP[h])) if hs else None
        mods = [i for i, nd in enumerate(f.nodes) if d and (nd["k"] == "UnaryOperator" and nd["op"] in ("++", "--") or nd["k"] in ("CompoundAssignOperator", "BinaryOperator") and nd["op"] in ("+=", "-=", "=")) and f.n(f.strip(nd["c"][0])).get("d") == d]
        if d and not mods:   # counted by a function
            g = [P.fns.get(f.n(f.strip(x["i"])).get("fn")) for nd in f.nodes if nd["k"] == "DeclStmt" for x in nd["decls"] if x["d"] == d and x.get("i", -1) >= 0]
            g = g[0] if g else None
            if g is not None and g.cfg is not None:
                for m in g.nodes:
                    if m["k"] == "ReturnStmt" and m.get("c"):
                        x = g.n(g.strip(m["c"][0]))
                        if x["k"] == "DeclRefExpr" and ((g.id, x["d"], kind), []) not in items: items.append(((g.id, x["d"], kind), []))
                continue
        hs = {inner(i) for i in mods} | {inner(i) for i, _ in L0}
        hs = {h for h in hs if h is not None and (A.about(h, LP) or any(f.n(i).get("n") == "reachable" for i, _ in L0))}
        if not hs: continue   # numbers something else
        rule = {"alt": "NUMBER", "row": "REPORT", "compose": "COMPOSE"}[kind]; base = 1 if kind == "alt" else 0
        what0 = {"alt": "rule number %s" % name, "row": "report row %s" % name, "compose": "combined pattern"}[kind]
        where = f.at(L0[0][0]) if L0 else f.where(); lab = f.name
        if d:
            decl = [(i, x) for i, nd in enumerate(f.nodes) if nd["k"] == "DeclStmt" for x in nd["decls"] if x["d"] == d]
            iv = f.n(decl[0][1]["i"]).get("cv") if decl and decl[0][1].get("i", -1) >= 0 else None
            if decl and iv is None and decl[0][1].get("i", -1) >= 0: iv = f.n(f.strip(decl[0][1]["i"])).get("cv")
            resets = [i for i in mods if f.n(i).get("op") == "=" and f.n(i)["k"] == "BinaryOperator" and isinstance(f.n(f.n(i)["c"][1]).get("cv"), int)]
            mods = [i for i in mods if i not in resets]
            if decl:
                for h in hs:
                    outer = [x for x in LP if x != h and h in LP[x] and len(LP[x]) > len(LP[h])]
                    if outer:
                        o = min(outer, key=lambda x: len(LP[x]))
                        starts = [(blk(decl[0][0]), iv)] + [(blk(i), f.n(f.n(i)["c"][1]).get("cv")) for i in resets]
                        good = [v for bs, v in starts if bs and bs[0] in LP[o] and bs[0] not in LP[h]]
                        R.check(rule, bool(good), "%s: %s is not set anew" % (lab, what0), where, "%s: %s goes on from one start condition to the next" % (lab, what0))
                        if good: iv = good[-1]
        else: iv = None
        for h in sorted(hs):
            ins = [(i, p) for i, p in L0 if inner(i) == h]
            for eof in (False, True):
                for bar in (False, True):
                    want = 0 if eof or kind == "row" and bar else 1
                    r = A.run(h, LP[h], eof, bar, d, {i for i, _ in ins})
                    kindtext = "%s rule with %s" % ("an end-of-file" if eof else "a pattern", "action |" if bar else "an action")
                    key = "%s: %s for %s" % (lab, what0, kindtext)
                    if r is None: R.note("%s: not decided" % key); continue
                    bad = None
                    for done, adv, hits in r:
                        if d is not None:
                            anyhit = len(hits) > 0
                            if kind == "row" and ins and want == 1 and adv == 0 and not anyhit: continue   # reporting is off
                            if not done:
                                if kind == "alt" or kind == "row": bad = "the loop over the rules may end early"
                                continue
                            if adv != want: bad = "advances by %d, not %d" % (adv, want)
                            if kind == "alt" and ins and (len({x for x, _ in hits}) > 0) != bool(want): bad = "is %s" % ("used" if hits else "not used")
                            if kind == "row" and not want and hits: bad = "is used"
                            for x, a0 in hits:
                                p = dict(ins)[x]
                                if isinstance(iv, int) and iv + a0 - (1 if p and False else 0) != base and not (p and iv + a0 - 1 == base): bad = "is off by %d" % (iv + a0 - base)
                        else:
                            if not done: bad = "the loop over the rules may end early"; continue
                            if len(hits) != want: bad = "gets %d alternatives, not %d" % (len(hits), want)
                    if kind == "row" and want and not any(adv == 1 for _, adv, _ in r): bad = "has no row"
                    R.check(rule, bad is None, key, where, "%s: %s" % (key, bad))
    options(R, P)

def options(R, P):
    tabs = {k[0] if isinstance(k, tuple) else k: g for k, g in P.globals.items()}
    T = tabs.get("options_table"); names = None
    if T is None:
        c = [g for g in tabs.values() if isinstance(g.get("val"), list) and "case_insensitive" in g["val"]]
        T = c[0] if c else None
    if T is None: R.note("no table of options"); return
    names = {x for x in T["val"] if isinstance(x, str)}
    made = {}
    used = {}
    for f in P.fns.values():
        if not f.file.startswith(REPO): continue
        for i, nd in enumerate(f.nodes):
            c = nd.get("c", ()); o = a = None
            if nd["k"] == "CXXOperatorCallExpr" and nd.get("op") == "[]" and len(c) > 2: o, a = c[1], c[2]
            elif nd["k"] == "CXXMemberCallExpr" and nd.get("n") in ("find", "at", "count") and len(c) > 1:
                me = f.n(f.strip(c[0])); o, a = (me["c"][0], c[1]) if me.get("c") else (None, None)
            if o is None: continue
            m = f.n(f.strip(o))
            if m["k"] != "MemberExpr" or not m["d"].endswith("Reflex::options"): continue
            s = lit(f, a)
            if len(s) != 1 or any(f.k(j) in ("DeclRefExpr", "MemberExpr") and "basic_string" in (f.n(j).get("t") or "") and "(" not in (f.n(j).get("t") or "") for j in f.walk(a)): continue
            used.setdefault(s[0], (f, i))
    for s, (f, i) in sorted(used.items()):
        R.check("OPTION", s in names, "option %s" % s, f.at(i), "the option \"%s\" is consulted but cannot be given: it is not in the table of options" % s)
    L = [g for g in tabs.values() if (g.get("rec") or "").endswith("Library") and isinstance(g.get("val"), list)]
    for g in L:
        seen = set()
        for row in g["val"]:
            if not isinstance(row, list) or not row or not isinstance(row[0], str): continue
            R.check("LIBRARY", row[0] not in seen and "-" not in row[0] and all(isinstance(x, str) and x for x in row[:5]), "library %s" % row[0], "%s:%d" % (g["file"], g["line"]),
                    "the library \"%s\" cannot be selected: a '-' in a name given is replaced by '_', names are unique, and no column is empty" % row[0])
            seen.add(row[0])

"""Numbers that depend on the pattern and are stored in a narrower field of the compiled form fit, or the pattern is rejected."""
from lim import *
LEVEL = "other"

def charvars(f):
    """variables that hold characters or bytes: some value assigned to them is one"""
    out = set()
    def ischar(i):
        j = i
        while True:
            nd = f.n(j)
            if nd["k"] in STRIP and nd.get("c"):
                if nd["k"] in CASTS and width(nd.get("t")) == 8: return True
                j = nd["c"][0]
            else: break
        nd = f.n(j); k = nd["k"]
        if k in ("CallExpr", "CXXMemberCallExpr"): return width(nd.get("t")) in (8, 16) 
        if k == "CharacterLiteral": return True
        if k == "MemberExpr" and nd.get("n") in ("first", "second") and width(nd.get("t")) in (8, 16): return True
        if k == "DeclRefExpr" and nd.get("d") in out: return True
        if k == "ArraySubscriptExpr" or k == "UnaryOperator" and nd["op"] == "*": return width(nd.get("t")) == 8
        if k == "UnaryOperator" and nd["op"] in ("++", "--"): return ischar(nd["c"][0])
        if k == "BinaryOperator" and nd["op"] == "=": return ischar(nd["c"][1])
        if k == "BinaryOperator" and nd["op"] in ("+", "-", "|", "&", "^"): return ischar(nd["c"][0]) and isinstance(f.n(nd["c"][1]).get("cv"), int)
        return False
    for _ in range(3):
        for i, nd in enumerate(f.nodes):
            if nd["k"] == "BinaryOperator" and nd["op"] == "=" and width(nd.get("t")) in (8, 16) and ischar(nd["c"][1]):
                p = f.n(f.strip(nd["c"][0]))
                if p["k"] == "DeclRefExpr": out.add(p["d"])
            elif nd["k"] == "DeclStmt":
                for d in nd["decls"]:
                    if d["i"] >= 0 and width(d["t"]) in (8, 16) and ischar(d["i"]): out.add(d["d"])
    for p in f.params:
        if width(p["t"]) == 8 and not p["t"].endswith("&"): out.add(p["d"])
    return out

def check(R):
    P = load(["lib/pattern", "headers"]); R.units = P.tus
    R.rule("FIT", "a number stored in a narrower unsigned type fits, or the pattern was rejected before", 6)
    R.rule("WRAP", "an increment or sum of a narrow counter does not wrap around unnoticed", 3)
    R.rule("PRODUCT", "the product of two counts does not exceed its type", 0)
    R.rule("PACK", "what is packed into an opcode word fits into the bits kept for it", 2)
    R.rule("CLAMP", "a number over its limit is not cut down to it", 0)
    fs = compile_side(P); R.note("%d functions of the pattern compiler" % len(fs))
    cvs = {}
    def judge(f, i, src, t, sink):
        if "hash" in f.name or f.cls == "reflex::Pattern::Chars": return False
        if f.cls == "reflex::Pattern::Position" and not f.params: return False # takes a position apart
        if sink != "++" and width(t) == 8 and not any(width(f.n(j).get("t")) == 64 for j in leaves(f, src)): return False
        if f.id not in cvs: cvs[f.id] = charvars(f)
        if sink is None and stored(f, i) in cvs[f.id]: return False
        if f.id not in cvs: cvs[f.id] = charvars(f)
        cv = cvs[f.id]
        # the variable stored to, and the variables read
        for j in list(f.walk(src)) if sink not in ("clamp",) else [f.strip(f.c(i)[0])]:
            nd = f.n(j)
            if nd["k"] == "DeclRefExpr" and nd.get("d") in cv:
                # a character among the operands: judged when it is accumulated into something else
                if sink != "clamp" and accumulates(f, i, cv): continue
                return False
        if not any(f.n(j)["k"] == "DeclRefExpr" and f.n(j).get("dk") in ("var", "parm") or f.n(j)["k"] in ("MemberExpr", "CallExpr", "CXXMemberCallExpr") for j in f.walk(src)): return False
        if sink is None and any(f.k(j) == "DeclRefExpr" and f.n(j).get("d") in found(f) for j in leaves(f, src)): return False
        if sink is None and all(chary(f, j, cv) for j in leaves(f, src)): return False
        return True
    seen = {}
    for f in sorted(fs, key=lambda f: (f.file, f.line)):
        E = Lim(P, judge)
        for nd in f.nodes:
            if isinstance(nd.get("cv"), int) and 0 < nd["cv"] < (1 << 33): E.consts.add(nd["cv"])
        for g in [P.fns.get(nd.get("fn")) for nd in f.nodes if nd["k"] in ("CallExpr", "CXXMemberCallExpr")]:
            if g is not None and len(g.nodes) < 60:
                for nd in g.nodes:
                    if isinstance(nd.get("cv"), int) and 0 < nd["cv"] < (1 << 33): E.consts.add(nd["cv"])
        def mk(E, f=f):
            st = S()
            for p in f.params:
                if width(p["t"]): st.env[(p["d"],)] = E.fresh(st, p.get("n", "p"), p["t"])
            return st
        E.analyse(f, mk)
        for (rule, fid, i), (ok, g, i2, what) in E.ob.items():
            if g.id != f.id and not any(x.id == g.id for x in fs): pass
            o = seen.get((rule, fid, i))
            if o is None or (o[0] and not ok): seen[(rule, fid, i)] = (ok, g, i2, what)
    for (rule, fid, i), (ok, g, i2, what) in sorted(seen.items(), key=lambda x: (x[0][0], x[1][1].file, x[1][1].line, x[1][1].n(x[1][2])["l"], x[0][2])):
        R.check(rule, ok, "%s %s: %s" % (rule, g.name, what), g.at(i2), "%s: %s" % (g.name, what))

def found(f):
    """variables that hold a position found in the pattern text (whose length was limited)"""
    if getattr(f, "_found", None) is None:
        f._found = set()
        for i, nd in enumerate(f.nodes):
            src = [(f.n(f.strip(nd["c"][0])).get("d"), nd["c"][1])] if nd["k"] == "BinaryOperator" and nd["op"] == "=" else [(d["d"], d["i"]) for d in nd["decls"] if d["i"] >= 0] if nd["k"] == "DeclStmt" else ()
            for d, j in src:
                if re.match(r"r?find", f.n(f.strip(j)).get("n") or ""): f._found.add(d)
    return f._found
def stored(f, i):
    """the variable that a value is stored to"""
    j = i
    for _ in range(6):
        j = f.par.get(j)
        if j is None: return None
        nd = f.n(j)
        if nd["k"] == "BinaryOperator" and nd["op"] == "=": return f.n(f.strip(nd["c"][0])).get("d")
        if nd["k"] not in STRIP: return None
def leaves(f, i):
    out = []
    def go(j):
        nd = f.n(j)
        if isinstance(nd.get("cv"), int): return
        if nd["k"] in STRIP and nd.get("c"): go(nd["c"][0])
        elif nd["k"] in ("BinaryOperator", "CompoundAssignOperator", "ConditionalOperator"):
            for c in (nd["c"][1:] if nd["k"] == "ConditionalOperator" else nd["c"]): go(c)
        elif nd["k"] == "UnaryOperator": go(nd["c"][0])
        else: out.append(j)
    go(i); return out
def chary(f, j, cv):
    nd = f.n(j)
    if nd["k"] == "DeclRefExpr": return nd.get("d") in cv
    if nd["k"] in ("CallExpr", "CXXMemberCallExpr"): return width(nd.get("t")) in (8, 16) and nd.get("n") not in ("size", "distance")
    if nd["k"] == "MemberExpr": return nd.get("n") in ("first", "second") and width(nd.get("t")) == 16
    return False
def accumulates(f, i, cv):
    """x = a * x + ... in a loop, x not a character"""
    j = i
    for _ in range(6):
        j = f.par.get(j)
        if j is None: return False
        nd = f.n(j)
        if nd["k"] == "BinaryOperator" and nd["op"] == "=":
            p = f.n(f.strip(nd["c"][0]))
            return p["k"] == "DeclRefExpr" and p.get("d") not in cv
        if nd["k"] == "DeclStmt": return False
    return False

def compile_side(P):
    out = {}; work = [f for f in P.fns.values() if f.cls == "reflex::Pattern" and f.name == "init"]
    if not work: raise AnalysisError("no initialisation of Pattern found")
    while work:
        f = work.pop()
        if f.id in out or f.cfg is None: continue
        if "pattern" not in f.file: continue
        if re.search(r"gencode|export|write_|print_|debug|parse_esc|posix_class", f.name): continue
        out[f.id] = f
        for nd in f.nodes:
            if nd.get("fn") and nd["fn"] in P.fns: work.append(P.fns[nd["fn"]])
    return list(out.values())

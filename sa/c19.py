"""Owned memory is released once, on every path."""
from own import *
LEVEL = "other"
ALIAS = "alias"

def fields(P):
    """pointer fields that some function of the class releases, with the field that says whether the object owns what it points to"""
    F = {}; C = {}
    owner = {}
    for r in P.recs.values():
        for x in r["fields"]: owner[x["id"]] = (r["id"], x)
    def released(f):
        out = []
        for i, nd in enumerate(f.nodes):
            a = nd["arg"] if nd["k"] == "CXXDeleteExpr" else nd["c"][1] if nd["k"] == "CallExpr" and nd.get("n") in REL and len(nd.get("c", ())) > 1 else None
            if a is None: continue
            for j in f.walk(a):
                m = f.n(j)
                if m["k"] == "MemberExpr" and m["d"] in owner and m.get("c") and f.k(f.strip(m["c"][0])) in ("CXXThisExpr", "DeclRefExpr"): out.append(m["d"])
                elif m["k"] == "DeclRefExpr":
                    # a local that was set from a field, or an iterator over one
                    for x in f.nodes:
                        srcs = [d["i"] for d in x["decls"] if d["d"] == m.get("d") and d["i"] >= 0] if x["k"] == "DeclStmt" else [x["c"][1]] if x["k"] == "BinaryOperator" and x["op"] == "=" and f.n(f.strip(x["c"][0])).get("d") == m.get("d") else ()
                        for s in srcs:
                            for y in f.walk(s):
                                z = f.n(y)
                                if z["k"] == "MemberExpr" and z["d"] in owner: out.append(z["d"])
        return out
    for f in P.fns.values():
        if not f.cls or not f.file.startswith(REPO): continue
        for d in released(f):
            r, x = owner[d]
            if r != f.cls and r not in P.bases(f.cls): continue
            if ELEM.match(x["t"]): C[d] = r
            elif x["t"].rstrip().endswith("*"): F[d] = r
        # fields of this that are given new memory, even when nobody releases it
        for i, nd in enumerate(f.nodes):
            if nd["k"] == "BinaryOperator" and nd["op"] == "=":
                m = f.n(f.strip(nd["c"][0])); a = f.n(f.strip(nd["c"][1]))
                if m["k"] == "MemberExpr" and m.get("d") in owner and m.get("c") and f.k(f.strip(m["c"][0])) == "CXXThisExpr" and m["d"] not in F and (a["k"] == "CXXNewExpr" or a["k"] == "CallExpr" and a.get("n") in ACQ):
                    r, x = owner[m["d"]]
                    if (r == f.cls or r in P.bases(f.cls)) and x["t"].rstrip().endswith("*"): F[m["d"]] = r
    # containers that receive what an owning field held
    for f in P.fns.values():
        for i, nd in enumerate(f.nodes):
            if nd["k"] == "CXXMemberCallExpr" and nd.get("c"):
                me = f.n(f.strip(nd["c"][0]))
                if me["k"] == "MemberExpr" and me["n"] in ("push", "push_back", "push_front") and me.get("c") and len(nd["c"]) > 1:
                    b = f.n(f.strip(me["c"][0])); a = f.n(f.strip(nd["c"][1]))
                    if b["k"] == "MemberExpr" and b["d"] in owner and ELEM.match(owner[b["d"]][1]["t"]) and (a["k"] == "CXXNewExpr" or a["k"] == "MemberExpr" and a["d"] in F): C[b["d"]] = owner[b["d"]][0]
    # flags: scalar fields of the class tested in its destructor, or in what that calls on this
    flag = {}
    for d, r in F.items():
        flag[d] = None
        dt = [f for f in P.fns.values() if f.cls == r and f.kind == "dtor"]
        fs = list(dt)
        for f in fs:
            for nd in f.nodes:
                g = P.fns.get(nd.get("fn")) if nd["k"] in ("CallExpr", "CXXMemberCallExpr") else None
                if g is not None and g.cls == r and g not in fs and len(fs) < 6: fs.append(g)
        for f in fs:
            if f.cfg is None: continue
            for b in f.cfg.values():
                if len([s for s in b["s"] if s is not None]) != 2 or "cond" not in b: continue
                for j in f.walk(b.get("lc", b["cond"])):
                    m = f.n(j)
                    if m["k"] == "MemberExpr" and m["d"] in owner and owner[m["d"]][0] == r and (owner[m["d"]][1].get("width") or "bool" in owner[m["d"]][1]["t"]): flag[d] = m["d"]
    return flag, C, F

def check(R):
    P = load(["headers", "lib/pattern"]); R.units = P.tus
    for n, t in (("LEAK", "what is allocated or owned is not lost: not overwritten, and not left behind at a return, throw or destructor"), ("TWICE", "nothing is released a second time"),
                 ("FOREIGN", "what belongs to someone else is not released"), ("DANGLING", "no pointer to released memory is left in an object or used"), ("SHARED", "no two objects own the same memory"), ("COPY", "a class that owns memory says how it is copied and assigned")): R.rule(n, t, 0)
    flag, C, F = fields(P)
    short = {}
    for d in list(flag) + list(C): short.setdefault(re.sub(r"<.*?>", "", d), d)
    R.note("owning fields: " + ", ".join(sorted(re.sub(r"^reflex::", "", re.sub(r"<.*>", "<>", d)) + (" if " + flag[d].split("::")[-1] if flag.get(d) else "") for d in short.values())))
    found = {}
    def report(rule, f, i, what):
        found.setdefault((rule, f.d.get("pfile") or f.file, f.n(i)["l"] if i is not None and i >= 0 else f.line, what), (f, i, top[0]))
    top = [None]; sites = set(); throws = None; nfun = set()
    groups = {}
    for d in flag: groups.setdefault(flag[d] or F[d], ({}, {}))[0][d] = flag[d]
    for d in C: groups.setdefault(C[d], ({}, {}))[1][d] = C[d]
    for g, (gF, gC) in sorted(groups.items()):
        aux = auxiliary(P, g, F, gF)
        while True:
            mine = {}
            def rep(rule, f, i, what): mine.setdefault((rule, f.d.get("pfile") or f.file, f.n(i)["l"] if i is not None and i >= 0 else f.line, what), (f, i, top[0]))
            O = Own(P, gF, gC, rep, aux, throws); throws = O.throws; failed = set()
            analyse(R, P, O, gF, gC, F, C, aux, failed, top, nfun)
            if not failed: break
            aux -= failed
        for k, v in mine.items(): found.setdefault(k, v)
        sites |= O.sites
    R.note("%d functions analysed" % len(nfun))
    bad = {(os.path.abspath(k[1]), k[2], k[0]) for k in found}
    for (fid, i) in sorted(sites):
        f = P.fns[fid]
        R.ok("LEAK" if f.k(i) in ("CXXNewExpr", "BinaryOperator") else "TWICE", "%s:%d" % (f.name, f.n(i)["l"])) if not any(k[1] == (f.d.get("pfile") or f.file) and k[2] == f.n(i)["l"] for k in found) else None
    done = set()
    for (rule, file, line, what), (f, i, f0) in sorted(found.items(), key=lambda x: x[0]):
        nm = re.sub(r"<.*>", "", "::".join(f.id.split("(")[0].split("::")[-2:]))
        R.check(rule, False, "%s %s: %s" % (rule, nm, what), f.at(i) if i is not None and i >= 0 else f.where(), "%s: %s%s" % (nm, what, "" if f0 is f else " (from %s)" % f0.id.split("(")[0].split("::", 1)[-1]))
    copies(R, P, flag, C, F)

def auxiliary(P, g, F, gF):
    """fields that are set wherever the object ceases to own: what else is then true"""
    out = set()
    if g not in {x for x in gF.values()}: return out
    for f in P.fns.values():
        if not f.cls: continue
        st = [(f.n(f.strip(nd["c"][0])), f.n(nd["c"][1]).get("cv")) for nd in f.nodes if nd["k"] == "BinaryOperator" and nd["op"] == "=" and isinstance(f.n(nd["c"][1]).get("cv"), int)]
        if any(m.get("d") == g and v == 0 for m, v in st):
            for m, v in st:
                if m["k"] == "MemberExpr" and m["d"] != g and v == 1 and "bool" in (m.get("t") or "") and m["d"].rsplit("::", 1)[0] == g.rsplit("::", 1)[0]: out.add(m["d"])
    return out

def analyse(R, P, O, flag, C, F, CC, aux, failed, top, nfun):
    report = O.report
    def owns(cls): return [d for d in list(flag) + list(C) if (F.get(d) or CC.get(d)) == cls or (F.get(d) or CC.get(d)) in P.bases(cls)]
    todo = []
    for f in P.fns.values():
        if f.cfg is None or not f.file.startswith(REPO): continue
        if f.cls and owns(f.cls) and not f.d.get("stat"):
            if f.id in O.direct or f.kind in ("ctor", "copyctor", "copyassign", "dtor") and f.id in O.relev: todo.append(f)
    def stores(f): return any(nd["k"] == "BinaryOperator" and nd["op"] == "=" and f.n(f.strip(nd["c"][0])).get("d") in set(flag) | O.flags for nd in f.nodes)
    def given(f):
        ps = {p["d"] for p in f.params if p["t"].rstrip().endswith("*") and not re.match(r"(const )?char \*", p["t"])}
        return any(nd["k"] == "BinaryOperator" and nd["op"] == "=" and f.n(f.strip(nd["c"][0])).get("d") in flag and f.n(f.strip(nd["c"][1])).get("d") in ps for nd in f.nodes)
    # functions that call a non-public one of them
    work = list(todo); ids = {f.id for f in todo}
    while work:
        g = work.pop()
        if g.kind or g.d.get("access") not in (1, 2) and (g.d.get("virt") or stores(g) and not given(g)): continue
        for c in O.callers.get(g.id, ()):
            f = P.fns[c]
            if c not in ids and f.cls and owns(f.cls) and f.cfg is not None and f.file.startswith(REPO): ids.add(c); todo.append(f); O.relev.add(c)
    # what a destructor calls and what only releases, or takes over the pointer it is given, is judged where it is called, not as a call of its own
    def part(f):
        c = O.callers.get(f.id)
        if not c or not all(x in ids for x in c): return False
        return f.d.get("access") in (1, 2) or not f.d.get("virt") and all(P.fns[x].cls == f.cls for x in c) and (given(f) or not stores(f) and any(P.fns[x].kind == "dtor" for x in c))
    O.helpers = {f.id for f in todo if f.kind not in ("ctor", "copyctor", "dtor", "copyassign") and part(f)}
    for f in sorted(todo, key=lambda f: (f.file, f.line, f.id)):
        if f.id in O.helpers: continue   # followed where it is called
        top[0] = f; nfun.add(f.id); own = owns(f.cls)
        two = f.kind != "copyctor" and any(p["t"].endswith("&") and plaincls(p["t"]) == f.cls for p in f.params)
        for al in (False, True) if two else (False,):
            for st, mp in entries(f, own, flag, C, F, al, aux):
                O.depth = 0; O.gave_up = None
                outs, thr = O.run(f, {"id": "0", "obj": "this", "map": mp, "stack": (f.id,)}, st)
                if O.gave_up: R.note("%s: too many states" % f.id)
                for s, v in outs: at_exit(O, P, f, s, None, own, flag, C, F, CC, v, report, aux, failed)
                for s, n in thr: at_exit(O, P, f, s, n, own, flag, C, F, CC, None, report, aux, failed)

def plaincls(t): return t.replace("const ", "").replace("&", "").strip()
def entries(f, own, flag, C, F, alias, aux):
    """all states in which the objects may be when the function is called"""
    objs = {}
    if f.cls and own: objs["this"] = f.kind in ("ctor", "copyctor")
    mp = {}
    for p in f.params:
        if p["t"].endswith("&") and own and (plaincls(p["t"]) == f.cls):
            mp[p["d"]] = "this" if alias else "p:" + p["d"]
            if not alias: objs["p:" + p["d"]] = False
    sts = [St()]
    for o, ctor in objs.items():
        groups = {}
        for d in own:
            if d in C: groups.setdefault(("c", d), []).append(d)
            else: groups.setdefault(flag[d] or ("p", d), []).append(d)
        for g, ds in groups.items():
            nxt = []
            for s in sts:
                for d in ds: pass
                if isinstance(g, tuple) and g[0] == "c":
                    for v in (("E",) if ctor else ("E", "O")):
                        x = s.copy(); x.e[(o, ds[0])] = v; nxt.append(x)
                elif isinstance(g, tuple):
                    for v in (("U",) if ctor else ("N", "L")):
                        x = s.copy()
                        if v == "L": t = ("i", o, ds[0]); x.t[t] = "L"; x.e[(o, ds[0])] = t
                        else: x.e[(o, ds[0])] = v
                        nxt.append(x)
                else:
                    for v in (("U",) if ctor else ("L", "B", "N")):
                        x = s.copy()
                        for d in ds:
                            if v == "L": t = ("i", o, d); x.t[t] = "L"; x.e[(o, d)] = t
                            else: x.e[(o, d)] = v
                        x.e[(o, g)] = "U" if ctor else "T" if v == "L" else "F"
                        for a in aux: x.e[(o, a)] = "U" if ctor else "?" if v == "L" else "T"
                        nxt.append(x)
            sts = nxt
    for s in sts:
        yield s, dict(mp)

def at_exit(O, P, f, s, n, own, flag, C, F, CC, ret, report0, aux, failed):
    oom = ("#", "oom") in s.e
    def report(rule, *a):
        if rule != "LEAK" or not oom: report0(rule, *a)
    node = n if n is not None else f.body if f.body is not None and f.body >= 0 else -1
    how = " when this throws" if n is not None else ""
    line = node
    if ret is not None and isinstance(ret, tuple): s.t[ret] = "X" if s.t.get(ret) == "L" and not O.fieldheld(s, ret) else s.t.get(ret, "X")
    dtor = f.kind == "dtor"; failedctor = f.kind in ("ctor", "copyctor") and n is not None
    objs = {k[0] for k in s.e if k[1] in F or k[1] in C}
    held = {}
    deleg = any(i.get("deleg") for i in f.d.get("inits", ()))
    for o in objs:
        for d in own:
            v = s.e.get((o, d)); nm = d.split("::")[-1]; g = flag.get(d); fl = s.e.get((o, g)) if g else "T"
            if v is None: continue
            for a in aux:
                if v == "B" and fl == "F" and s.e.get((o, a)) != "T" and not f.kind == "dtor": failed.add(a)
            mine = F.get(d, CC.get(d)) == f.cls
            gone = o == "this" and (dtor and mine or failedctor and mine and not deleg)   # nobody releases it later
            if d in C:
                if v == "O" and gone: report("LEAK", f, node, "the elements of %s are not released%s" % (nm, how))
                if v == "D" and not gone: report("DANGLING", f, node, "%s is left with elements that were released%s" % (nm, how))
                continue
            if isinstance(v, tuple):
                t = s.t.get(v)
                if t == "R":
                    if not gone and fl != "F": report("DANGLING", f, node, "%s is left pointing to released memory%s" % (nm, how))
                    elif not gone and g and fl == "F": report("DANGLING", f, node, "%s is left pointing to released memory%s" % (nm, how))
                elif t == "L":
                    if gone: report("LEAK", f, node, "%s is not released%s" % (nm, how))
                    elif fl == "F":
                        if not [k for k in held.get(v, [])] and not any(s.e.get((o2, d)) == v and (s.e.get((o2, g)) if g else "T") == "T" for o2 in objs if o2 != o): report("LEAK", f, node, "%s holds memory it owns but is marked as not owned%s" % (nm, how))
                    elif fl in ("T", "U"): held.setdefault(v, []).append((o, d))
            elif v == "B" and fl == "T" and not gone and g:
                report("FOREIGN", f, node, "%s is marked as owned but belongs to someone else%s" % (nm, how))
            elif v == "U" and not gone and not failedctor and fl != "F":
                report("FOREIGN", f, node, "%s is not initialised and will be released" % nm)
    for v, hs in held.items():
        if len(hs) > 1: report("SHARED", f, node, "%s is owned by two objects%s" % (" and ".join("%s of %s" % (d.split("::")[-1], "this" if o == "this" else "the argument") for o, d in hs), how))
    for t, q in s.t.items():
        if q == "L" and t not in held:
            hs = [k for k in O.holders(s, t) if k[1] in F]
            if hs: continue
            if t[0] == "n":
                report("LEAK", f, node if n is not None else t[2] if t[1] == f.id else node, "memory allocated here is not released%s" % (how if n is None or True else ""))
            elif t[0] in ("i", "popped"):
                report("LEAK", f, node, "what %s held is not released%s" % (str(t[-1] if t[0] == "i" else t[1][1]).split("::")[-1], how))

def copies(R, P, flag, C, F):
    owners = set(F.values()) | set(C.values())
    made = {}
    for f in P.fns.values():
        base = set()
        if f.cfg is not None:
            for i in f.d.get("inits", ()):
                if "base" in i or i.get("deleg"): base.add(f.strip(i["e"]))
        for i, nd in enumerate(f.nodes):
            if nd["k"] in ("CXXConstructExpr", "CXXTemporaryObjectExpr") and nd.get("fn") and i not in base:
                made.setdefault(nd["fn"], (f, i))
            elif nd["k"] == "CXXOperatorCallExpr" and nd.get("fn"): made.setdefault(nd["fn"], (f, i))
    def user(cls, kind):
        r = P.recs.get(cls)
        return any(m.get("kind") == kind and not m.get("impl") and not m.get("def") for m in r["methods"])
    def abstract(cls):
        pure = {}
        for k in reversed([cls] + P.bases(cls)):
            for m in P.recs[k]["methods"] if k in P.recs else ():
                if m.get("pure"): pure[m["id"]] = 1
                for o in P.overrides().get(m["id"], ()):
                    if not m.get("pure"): pure.pop(o, None)
        return bool(pure)
    names = {}
    for cls in sorted(owners):
        for kind, what in (("copyctor", "copied"), ("copyassign", "assigned")):
            bad = None
            if not user(cls, kind):
                # the class itself, or one derived from it, with all copies implicit up to it
                for d in [cls] + P.derived(cls):
                    chain = [d] + [b for b in P.bases(d) if b != cls and cls in P.bases(b)]
                    if d != cls and any(user(x, kind) for x in chain): continue
                    if abstract(d): continue
                    r = P.recs[d]
                    hidden = "::Pattern::" in d
                    imp = [m["id"] for m in r["methods"] if m.get("kind") == kind and not m.get("del")]
                    if hidden and not any(m in made for m in imp): continue
                    bad = d; break
            sc = re.sub(r"<.*?>+", "<>", cls)
            if (sc, kind) in names and not bad: continue
            names[(sc, kind)] = 1
            R.check("COPY", bad is None, "COPY %s %s" % (sc, kind), "%s:%d" % (os.path.relpath(P.recs[cls]["file"], REPO), P.recs[cls]["line"]), "%s owns memory and is %s member by member: two objects release the same memory%s" % (sc, what, "" if bad in (None, cls) else " (as in %s)" % bad))

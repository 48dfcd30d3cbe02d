"""No shared modifiable state. (1) Every variable of static storage duration (namespace scope, class static or function static, in
the library, its headers and the Unicode tables): it is const without mutable parts, or each of its uses, followed through
aliases, is shown to read only. (2) No cast removes const from a pattern or another library object, no class of the pattern
has mutable members, and every use of a matcher's reference to its pattern, followed through aliases, reads only (or replaces
or releases the reference itself). (3) No C library function that keeps hidden static state is called. (4) The static
variables that the scanner generator writes into the scanners it generates are const."""
import re
from core import *

# functions with hidden process-wide state (POSIX "need not be thread-safe", plus the locale switch)
HIDDEN = {"strtok", "asctime", "ctime", "localtime", "gmtime", "setlocale", "rand", "srand", "random", "srandom", "drand48", "lrand48", "strerror", "getenv", "setenv",
          "putenv", "unsetenv", "tmpnam", "mblen", "mbtowc", "wctomb", "mbrlen", "mbrtowc", "wcrtomb", "mbsrtowcs", "wcsrtombs", "setstate", "signal", "gethostbyname", "readdir", "getlogin", "ttyname",
          "basename", "dirname", "ecvt", "fcvt", "gcvt", "l64a", "nl_langinfo", "strsignal", "chdir", "umask"}
STATEFUL_IF_NULL = {"mbrlen": 2, "mbrtowc": 3, "wcrtomb": 2, "mbsrtowcs": 3, "wcsrtombs": 3}
DEBUG_ONLY = {"REFLEX_DBGFD_": re.compile(r"^REFLEX_DBG|debug", re.I)}   # the debug log, compiled in with DEBUG only

def isconst(t):
    """is the object this reference or pointer type refers to (for other types: an object of this type) const?"""
    t = t.strip()
    if t.endswith("&"):
        t = t.rstrip("& ")
        return t.endswith("*const") if "*" in t[-8:] else t.startswith("const ")
    if t.endswith("*const"): t = t[:-5]
    if t.endswith("*"):
        t = t[:-1].rstrip()
        return t.endswith("*const") if t.endswith(("*", "*const")) else t.startswith("const ")
    return t.startswith("const ")

class Uses:
    """what happens to the object an expression designates: list of (kind, node), kind in 'write', 'escape'"""
    def __init__(self, f): self.f = f; self.out = []; self.n = 0; self.seen = set()
    def var(self, d):
        if d in self.seen: return
        self.seen.add(d)
        for i, nd in enumerate(self.f.nodes):
            if nd["k"] == "DeclRefExpr" and nd["d"] == d: self.climb(i, True)
    def bad(self, kind, i): self.out.append((kind, i))
    def climb(self, i, ptr=False):
        """i designates the object (lvalue), or with ptr: an lvalue holding, or a value that is, a pointer/reference to it"""
        f = self.f; first = True
        while True:
            p = f.par.get(i)
            if p is None: return
            nd = f.nodes[p]; k = nd["k"]; ch = f.c(p)
            if k == "ImplicitCastExpr" and nd.get("ck") == "LValueToRValue":
                t = nd.get("t", "")
                if not ptr:
                    if not t.endswith("*") or isconst(t): self.n += 1; return    # a plain read
                    ptr = True                                                    # what it points to belongs to it
                i = p; continue
            if k in CASTS or k in ("ParenExpr", "MaterializeTemporaryExpr", "ExprWithCleanups", "CXXBindTemporaryExpr", "ConstantExpr", "CXXDefaultArgExpr"):
                if nd.get("ck") == "ArrayToPointerDecay": ptr = True
                t = nd.get("t", "")
                if nd.get("ck") == "ToVoid" or t == "bool": self.n += 1; return
                if k == "ImplicitCastExpr" and nd.get("ck") == "NoOp" and isconst(t) and (nd.get("lv") or t.endswith("*")): self.n += 1; return
                i = p; continue
            if k == "ArraySubscriptExpr":
                if ch[0] != i: self.n += 1; return
                t = nd.get("t", ""); ptr = False
                if t.startswith("const ") and not t.endswith("*"): self.n += 1; return
                i = p; continue
            if k == "UnaryOperator":
                if nd["op"] == "*": ptr = False; i = p; continue
                if nd["op"] == "&": ptr = True; i = p; continue
                if nd["op"] in ("++", "--"):
                    if ptr and f.nodes[i].get("t", "").endswith("*"): i = p; continue    # moves the alias, not the object
                    return self.bad("write", p)
                self.n += 1; return
            if k == "MemberExpr":
                if nd["dk"] == "func":
                    q = f.par.get(p); cn = f.nodes[q] if q is not None else {}
                    if cn.get("cst") or cn.get("stat"): self.n += 1; return
                    return self.bad("write", p)
                t = nd.get("t", "")
                ptr = False; i = p
                if t.endswith("&"): ptr = True
                continue
            if k == "BinaryOperator":
                if nd["op"] == "=":
                    if ch[0] == i:
                        if ptr and f.nodes[i].get("t", "").endswith("*") and f.nodes[i]["k"] == "DeclRefExpr": self.n += 1; return     # re-aims the alias
                        return self.bad("write", p)
                    if ptr:
                        l = f.strip(ch[0])
                        if isconst(nd.get("t", "")): self.n += 1; return
                        if f.k(l) == "DeclRefExpr" and f.nodes[l]["dk"] == "var": self.var(f.nodes[l]["d"]); self.n += 1; return
                        return self.bad("escape", p)
                    self.n += 1; return
                if nd["op"] in ("+", "-") and nd.get("t", "").endswith("*"): i = p; continue
                if nd["op"] == "," and ch[1] == i: i = p; continue
                self.n += 1; return
            if k == "CompoundAssignOperator":
                if ch[0] == i and not (ptr and f.nodes[i].get("t", "").endswith("*")): return self.bad("write", p)
                self.n += 1; return
            if k == "ConditionalOperator":
                if ch[0] == i: self.n += 1; return
                i = p; continue
            if k == "CXXDeleteExpr": return self.bad("delete", p)
            if k in ("CallExpr", "CXXMemberCallExpr", "CXXOperatorCallExpr"):
                if ch[0] == i: self.n += 1; return
                a = [x for x in ch[1:]].index(i) if i in ch[1:] else 0
                pt = nd.get("pt", [])
                if k == "CXXOperatorCallExpr" and nd.get("cls") and not nd.get("stat"):
                    if a == 0:
                        if nd.get("cst"): self.n += 1; return
                        return self.bad("write", p)
                    a -= 1
                t = pt[a] if a < len(pt) else None
                if t is None: self.n += 1; return                 # variadic: passed by value
                if t.endswith("&") or t.endswith("*"):
                    if isconst(t) or not (ptr or f.nodes[i].get("lv")): self.n += 1; return
                    return self.bad("escape", p)
                self.n += 1; return
            if k in ("CXXConstructExpr", "CXXTemporaryObjectExpr"):
                args = nd.get("fn", ""); args = args[args.find("(") + 1:args.rfind(")")]; pts = []; depth = 0; cur = ""
                for x in args:
                    if x in "<(": depth += 1
                    elif x in ">)": depth -= 1
                    if x == "," and depth == 0: pts.append(cur.strip()); cur = ""
                    else: cur += x
                pts.append(cur.strip()); a = list(ch).index(i) if i in ch else 0
                t = pts[a] if a < len(pts) else ""
                if (t.endswith("&") or t.endswith("*")) and not isconst(t): return self.bad("escape", p)
                self.n += 1; return
            if k == "ReturnStmt":
                t = f.d.get("ret", "")
                if (t.endswith("&") or t.endswith("*")) and not isconst(t): return self.bad("escape", p)
                self.n += 1; return
            if k == "DeclStmt":
                for d in nd["decls"]:
                    if d["i"] == i or (d["i"] >= 0 and i in f.walk(d["i"])):
                        t = d["t"]
                        if (t.endswith("&") or t.endswith("*")) and not isconst(t): self.var(d["d"]) if t.endswith("*") else self.ref(d["d"])
                self.n += 1; return
            if k == "CXXForRangeStmt": i = p; continue
            if k in ("InitListExpr",):
                if ptr and not isconst(f.nodes[i].get("t", "")): return self.bad("escape", p)
                self.n += 1; return
            self.n += 1; return
    def ref(self, d):
        if ("r", d) in self.seen: return
        self.seen.add(("r", d))
        for i, nd in enumerate(self.f.nodes):
            if nd["k"] == "DeclRefExpr" and nd["d"] == d: self.climb(i, False)

def owner(P, f): return f.cls or ""

def check(R):
    P = load(["headers", "flex", "lib", "unicode", "src"]); R.units = P.tus
    lib = lambda file: file and not file.startswith(REPO + "/src/")
    R.rule("STATIC", "variable of static storage is const without mutable parts, or only ever read", 300)
    R.rule("STATICUSE", "function that uses a non-const static variable only reads it", 3)
    R.rule("CONST", "conversion keeps const of library objects", 1)
    R.rule("MUTABLE", "class that makes up a shared pattern or table has no mutable member", 5)
    R.rule("PATTERN", "use of a matcher's pattern reads only", 10)
    R.rule("HIDDEN", "function calls nothing with hidden static state", 400)
    R.rule("GENERATED", "static variable written into generated scanners is const", 3)
    fns = [f for f in sorted(P.fns.values(), key=lambda f: f.id) if lib(f.file)]
    # 1 static storage
    watch = {}
    for (gid, fn), g in sorted(P.globals.items(), key=str):
        if not lib(g.get("file", "")): continue
        if g.get("tls"): R.ok("STATIC", "thread-local " + gid); continue
        t = g["t"]
        deep = g.get("const") and not g.get("mutf")
        if deep and t.endswith("*const") and not t.startswith("const "): deep = False      # const pointer to modifiable data
        if deep: R.ok("STATIC", gid); continue
        watch[(gid, fn)] = g
    names = {}
    for (gid, fn), g in watch.items(): names.setdefault(gid, []).append((gid, fn))
    hits = {k: [] for k in watch}; nuse = 0
    for f in fns:
        for i, nd in enumerate(f.nodes):
            if nd["k"] in ("DeclRefExpr", "MemberExpr") and nd.get("dk") in ("global", "slocal") and nd["d"] in names or (nd["k"] == "DeclRefExpr" and nd.get("dk") == "slocal" and any(g["n"] == nd["n"] and g.get("fn") == f.id for g in watch.values())):
                keys = names.get(nd["d"]) or [k for k, g in watch.items() if g["n"] == nd["n"] and g.get("fn") == f.id]
                for key in keys:
                    g = watch[key]
                    if g.get("fn") and g["fn"] != f.id: continue
                    if key[0] in DEBUG_ONLY and DEBUG_ONLY[key[0]].search(f.name + " " + f.file): R.ok("STATICUSE", "debug log in %s" % f.id); continue
                    U = Uses(f); U.climb(i); nuse += 1
                    if U.out:
                        kind, at = U.out[0]
                        R.bad("STATICUSE", "%s modified in %s" % (key[0], f.name), f.at(at), "%s, shared by all objects and threads, %s (%s)" % (key[0], "is modified" if kind != "escape" else "is handed out for modification", f.text(at)[:100]))
                        hits[key].append(f.id)
                    else: R.ok("STATICUSE", "%s in %s" % (key[0], f.id))
    for key, g in watch.items():
        if not hits[key]: R.ok("STATIC", key[0])
        else: R.bad("STATIC", "modified static " + key[0], "%s:%d" % (os.path.relpath(g["file"], REPO), g["line"]), "modifiable variable %s of static storage is shared by all objects and threads" % key[0])
    R.note("%d uses of %d non-const static variables followed" % (nuse, len(watch)))
    # 2 constness of patterns and tables
    recname = lambda t: re.sub(r"\b(const|struct|class)\b|[*&]", "", t).strip()
    shared = {r for r in P.recs if r.startswith("reflex::Pattern") and not r.startswith("reflex::PatternMatcher")} | {r for r in P.recs if r.startswith(("reflex::Posix", "reflex::Unicode"))}
    shared |= {g.get("rec") for g in P.globals.values() if g.get("rec") and lib(g.get("file", ""))} & set(P.recs)
    for r in sorted(shared):
        m = [x["n"] for x in P.recs[r]["fields"] if x.get("mut")]
        R.check("MUTABLE", not m, "class " + r, "%s:%d" % (os.path.relpath(P.recs[r]["file"], REPO), P.recs[r]["line"]), "%s has mutable member %s, written by operations that are allowed to run concurrently" % (r, ", ".join(m)))
    for f in fns:
        for i, nd in enumerate(f.nodes):
            if nd["k"] not in CASTS or not nd.get("expl"): continue
            s = f.nodes[nd["c"][0]]; st, t = s.get("t", ""), nd.get("t", "")
            src = isconst(st) if (st.endswith("*") or not t.endswith("*")) else False
            dst = isconst(t)
            if not ((t.endswith("*") and st.endswith("*")) or (nd.get("lv") and s.get("lv"))): continue
            if src and not dst:
                r = recname(st)
                root = f.path(nd["c"][0])
                sh = r in P.recs and r.startswith("reflex::") or (root and any(x == "pat_" or x.startswith("::") for x in root))
                R.check("CONST", not sh, "const removed in %s: %s" % (f.name, f.text(i)[:60]), f.at(i), "the cast makes a shared const object modifiable: %s" % f.text(i)[:100])
    # matchers and their pattern
    base = "reflex::AbstractMatcher"; mats = {base} | set(P.derived(base)); np = 0
    for f in fns:
        hit = []
        for i, nd in enumerate(f.nodes):
            if nd["k"] == "MemberExpr" and nd.get("dk") == "field" and nd["n"].split("@")[0] == "pat_":
                U = Uses(f)
                # the reference itself may be replaced; what it refers to may not be modified
                p = f.par.get(i)
                while p is not None and f.k(p) == "ParenExpr": p = f.par.get(p)
                if p is not None and f.k(p) == "BinaryOperator" and f.nodes[p]["op"] == "=" and f.strip(f.c(p)[0]) == i: np += 1; continue
                U.climb(i, True); np += 1
                hit += [(k, x) for k, x in U.out if k != "delete"]
        if any(nd["k"] == "MemberExpr" and nd.get("n", "").split("@")[0] == "pat_" for nd in f.nodes):
            R.check("PATTERN", not hit, "pattern used in " + f.id, f.at(hit[0][1]) if hit else f.where(), "the pattern of the matcher, possibly shared, is modified or handed out for modification: %s" % (f.text(hit[0][1])[:100] if hit else ""))
    # modification through a pattern a matcher was given, or by a const operation
    # 3 hidden state
    for f in fns:
        hit = None
        for i, nd in enumerate(f.nodes):
            if nd["k"] == "CallExpr" and nd.get("n") in HIDDEN and "reflex::" not in nd.get("fn", ""):
                n = nd["n"]; a = STATEFUL_IF_NULL.get(n)
                if a is not None and len(nd["c"]) > a + 1 and f.cv(f.strip(nd["c"][a + 1])) != 0: continue
                hit = i
        if hit is not None and re.search(r"lib/debug\.cpp$", f.file): R.note("debug log: %s calls %s" % (f.name, f.nodes[hit]["n"])); continue
        R.check("HIDDEN", hit is None, "calls in " + f.id, f.at(hit) if hit is not None else f.where(), "%s keeps hidden process-wide state" % (f.nodes[hit]["n"] if hit is not None else ""))
    # 4 generated code
    for f in P.fns.values():
        if lib(f.file): continue
        for i, nd in enumerate(f.nodes):
            if nd["k"] == "StringLiteral":
                for m in re.finditer(r"(?:^|[\n;{}]\s*|^\s+)static\s+(?!inline)(\w+)", nd.get("v", "")):
                    line = nd["v"][m.start():].lstrip("\n").split("\n")[0]
                    R.check("GENERATED", m.group(1) in ("const", "constexpr"), "generated static: " + line[:60], f.at(i), "generated scanners get a modifiable static variable, shared by all lexers: %s" % line[:80])
    R.assumption("Function-local statics are initialised once by the compiler's thread-safe initialisation (C++11), as the build uses it.")
    R.assumption("Standard and regex library objects that are const are safe to read concurrently.")

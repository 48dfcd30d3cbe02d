"""Loading of the exported program, and basic helpers on it."""
import concurrent.futures, hashlib, json, os, re, subprocess, sys, tempfile, time, shutil

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("RX_REPO", "/repo")
TOOL = os.path.join(VERIF, "tool", "rxexport")

class AnalysisError(Exception):
    """The analysis could not be carried out (vanished anchor, parse failure)."""

STRIP = {"ImplicitCastExpr", "ParenExpr", "ExprWithCleanups", "MaterializeTemporaryExpr", "CXXBindTemporaryExpr",
         "CStyleCastExpr", "CXXStaticCastExpr", "CXXFunctionalCastExpr", "CXXReinterpretCastExpr", "CXXConstCastExpr", "ConstantExpr",
         "CXXDefaultArgExpr", "CXXDefaultInitExpr", "SubstNonTypeTemplateParmExpr"}
CASTS = {"ImplicitCastExpr", "CStyleCastExpr", "CXXStaticCastExpr", "CXXFunctionalCastExpr", "CXXReinterpretCastExpr", "CXXConstCastExpr", "CXXDynamicCastExpr"}

class Fn:
    def __init__(self, d, tu):
        self.d = d; self.tu = tu
        self.id = d["id"]; self.name = d["name"]; self.cls = d.get("cls"); self.nodes = d["nodes"]; self.kind = d.get("kind")
        self.params = d["params"]; self.body = d["body"]; self.cfg = None
        self.file = d["file"]; self.line = d["line"]
        if "cfg" in d:
            self.cfg = {b["id"]: b for b in d["cfg"]["blocks"]}
            self.entry = d["cfg"]["entry"]; self.exit = d["cfg"]["exit"]
        self._par = None; self._al = None
    def n(self, i): return self.nodes[i]
    def c(self, i): return self.nodes[i].get("c", ())
    def k(self, i): return self.nodes[i]["k"]
    def at(self, i): return "%s:%d" % (os.path.relpath(self.file, REPO), self.nodes[i]["l"] if i is not None and i >= 0 else self.line)
    def where(self): return "%s:%d" % (os.path.relpath(self.file, REPO), self.line)
    @property
    def par(self):
        if self._par is None:
            p = {}
            for i, nd in enumerate(self.nodes):
                for c in nd.get("c", ()):
                    if c >= 0: p.setdefault(c, i)
            self._par = p
        return self._par
    def strip(self, i):
        while i is not None and i >= 0:
            nd = self.nodes[i]
            if nd["k"] in STRIP and nd.get("c"): i = nd["c"][0]
            elif nd["k"] == "CXXConstructExpr" and nd.get("copy") and nd.get("elid"): i = nd["c"][0]
            else: break
        return i
    def walk(self, i):
        st = [i]
        while st:
            x = st.pop()
            if x is None or x < 0: continue
            yield x
            st.extend(reversed(self.c(x)))
            if self.k(x) == "DeclStmt":
                pass
    def reach(self):
        seen = set(); st = [self.entry]
        while st:
            b = st.pop()
            if b in seen or b is None: continue
            seen.add(b); st.extend(s for s in self.cfg[b]["s"] if s is not None)
        return seen
    def cv(self, i):
        return self.nodes[i].get("cv") if i is not None and i >= 0 else None
    def alias(self):
        """reference locals -> node of initialiser"""
        if self._al is None:
            self._al = {}
            for i, nd in enumerate(self.nodes):
                if nd["k"] == "DeclStmt":
                    for d in nd["decls"]:
                        if d["t"].endswith("&") and d["i"] >= 0: self._al[d["d"]] = d["i"]
        return self._al
    def path(self, i, depth=0):
        """access path of an expression: tuple of root and member names, or None"""
        if i is None or i < 0 or depth > 40: return None
        i = self.strip(i); nd = self.nodes[i]; k = nd["k"]
        if k == "CXXThisExpr": return ("this",)
        if k == "DeclRefExpr":
            if nd["dk"] in ("var", "parm", "slocal"):
                al = self.alias().get(nd["d"])
                if al is not None: return self.path(al, depth + 1)
                return (nd["d"],)
            if nd["dk"] == "global": return ("::" + nd["d"],)
            return None
        if k == "MemberExpr":
            if nd["dk"] == "global": return ("::" + nd["d"],)
            if nd["dk"] != "field": return None
            b = self.path(nd["c"][0], depth + 1)
            if b is None: return None
            if nd.get("arrow") and b != ("this",): b = b + ("*",)
            return b + (nd["n"],)
        if k == "UnaryOperator" and nd["op"] == "*":
            b = self.path(nd["c"][0], depth + 1)
            if b == ("this",): return b
            return None if b is None else b + ("*",)
        if k == "UnaryOperator" and nd["op"] == "&":
            b = self.path(nd["c"][0], depth + 1)
            if b is None: return None
            if b[-1] == "*": return b[:-1]
            return b + ("&",)
        if k == "ArraySubscriptExpr":
            b = self.path(nd["c"][0], depth + 1)
            return None if b is None else b + ("*",)
        if k == "CXXOperatorCallExpr" and nd.get("op") in ("[]", "*"):
            b = self.path(nd["c"][1], depth + 1)
            return None if b is None else b + ("*",)
        return None
    def text(self, i, depth=0):
        """readable rendering of an expression (for reports)"""
        if i is None or i < 0 or depth > 12: return "..."
        nd = self.nodes[i]; k = nd["k"]; c = nd.get("c", ()); T = lambda j: self.text(j, depth + 1)
        if k in STRIP and k not in ("CStyleCastExpr", "CXXStaticCastExpr") and c:
            return "(" + T(c[0]) + ")" if k == "ParenExpr" else T(c[0])
        if k == "CXXThisExpr": return "this"
        if k == "DeclRefExpr": return nd["n"]
        if k == "MemberExpr":
            b = T(c[0]) if c else ""
            return nd["n"] if b == "this" else b + ("->" if nd.get("arrow") else ".") + nd["n"]
        if k in ("BinaryOperator", "CompoundAssignOperator"): return T(c[0]) + " " + nd["op"] + " " + T(c[1])
        if k == "UnaryOperator": return T(c[0]) + nd["op"] if nd.get("post") else nd["op"] + T(c[0])
        if k == "ArraySubscriptExpr": return T(c[0]) + "[" + T(c[1]) + "]"
        if k == "CXXOperatorCallExpr":
            if nd.get("op") == "[]" and len(c) > 2: return T(c[1]) + "[" + T(c[2]) + "]"
            if len(c) > 2: return T(c[1]) + " " + nd.get("op", "?") + " " + T(c[2])
            return nd.get("op", "?") + (T(c[1]) if len(c) > 1 else "")
        if k in ("CallExpr", "CXXMemberCallExpr"): return T(c[0]) + "(" + ", ".join(T(x) for x in c[1:]) + ")"
        if k in ("CStyleCastExpr", "CXXStaticCastExpr"): return "(" + nd["t"] + ")" + T(c[0])
        if k == "StringLiteral": return json.dumps(nd.get("v", ""))
        if k == "CharacterLiteral" and 32 <= nd.get("cv", 0) < 127: return "'" + chr(nd["cv"]) + "'"
        if k == "ConditionalOperator": return T(c[0]) + " ? " + T(c[1]) + " : " + T(c[2])
        if "cv" in nd: return str(nd["cv"])
        if k in ("CXXConstructExpr", "CXXTemporaryObjectExpr"): return nd.get("cls", "") .split("::")[-1] + "(" + ", ".join(T(x) for x in c) + ")"
        return k

class Prog:
    def __init__(self):
        self.fns = {}; self.recs = {}; self.globals = {}; self.enums = {}; self.tus = []
        self._over = None
    def add(self, path, tu):
        d = json.load(open(path)); self.tus.append(tu)
        for r in d["records"]: self.recs.setdefault(r["id"], r)
        for e in d["enums"]: self.enums.setdefault(e["id"], e)
        for g in d["globals"]:
            key = (g["id"], g.get("fn"))
            if g.get("file", "").endswith(("_scripts.cpp",)) or not g.get("hasinit", 0) == 0 or key not in self.globals: self.globals[key] = g
        for f in d["functions"]:
            if f["id"] not in self.fns or "::(anonymous" in f["id"]: self.fns[f["id"]] = Fn(f, tu)
    def finish(self):
        """rename members that hide a member of a base class"""
        ren = {}
        for r in self.recs.values():
            bn = {f["n"] for b in self.bases(r["id"]) if b in self.recs for f in self.recs[b]["fields"]}
            for f in r["fields"]:
                if f["n"] in bn:
                    short = re.sub(r"<.*>", "", r["id"]).split("::")[-1]
                    ren[f["id"]] = f["n"] + "@" + short
        if ren:
            for r in self.recs.values():
                for f in r["fields"]:
                    if f["id"] in ren: f["n"] = ren[f["id"]]
            for fn in self.fns.values():
                for nd in fn.nodes:
                    if nd["k"] == "MemberExpr" and nd["d"] in ren: nd["n"] = ren[nd["d"]]
        self.ren = ren
    def fn(self, id):
        f = self.fns.get(id)
        if f is None: raise AnalysisError("anchor function vanished: " + id)
        return f
    def find(self, pred): return [f for f in self.fns.values() if pred(f)]
    def named(self, cls, name):
        r = [f for f in self.fns.values() if f.cls == cls and f.name == name]
        return r
    def bases(self, cls):
        """all transitive bases, nearest first"""
        out = []; st = [cls]
        while st:
            x = st.pop(0); r = self.recs.get(x)
            if not r: continue
            for b in r["bases"]:
                if b not in out: out.append(b); st.append(b)
        return out
    def derived(self, cls):
        return [r for r in self.recs if cls in self.bases(r)]
    def fields(self, cls, inherited=False):
        out = list(self.recs[cls]["fields"])
        if inherited:
            for b in self.bases(cls):
                if b in self.recs: out += self.recs[b]["fields"]
        return out
    def overrides(self):
        """method id -> set of method ids it (transitively) overrides"""
        if self._over is None:
            o = {}
            for r in self.recs.values():
                for m in r["methods"]: o[m["id"]] = set(m.get("over", ()))
            ch = True
            while ch:
                ch = False
                for m in o:
                    for x in list(o[m]):
                        for y in o.get(x, ()):
                            if y not in o[m]: o[m].add(y); ch = True
            self._over = o
        return self._over
    def final_overrider(self, cls, mid):
        """implementation of (virtual) method mid for dynamic class cls"""
        for k in [cls] + self.bases(cls):
            r = self.recs.get(k)
            if not r: continue
            for m in r["methods"]:
                if m["id"] == mid or mid in self.overrides().get(m["id"], ()):
                    return m["id"]
        return mid
    def impls(self, mid):
        """all implementations a virtual call to mid may reach"""
        out = [mid] if mid in self.fns else []
        for m, o in self.overrides().items():
            if mid in o and m in self.fns: out.append(m)
        return out

QUICK_FLAGS = ["-std=gnu++17", "-DHAVE_SSE2", "-msse2"]
LIBS = ["convert", "debug", "error", "input", "matcher", "pattern", "posix", "unicode", "utf8"]
UNIS = ["block_scripts", "language_scripts", "letter_scripts"]

def units(which):
    u = []
    for w in which:
        if w == "headers": u.append(("headers", os.path.join(VERIF, "tu/all.cpp"), "^%s/(include|fuzzy)/" % REPO))
        elif w == "flex": u.append(("flex", os.path.join(VERIF, "tu/flex.cpp"), "^%s/(include|fuzzy)/" % REPO))
        elif w == "lib":
            for l in LIBS: u.append(("lib/" + l, "%s/lib/%s.cpp" % (REPO, l), "^%s/lib/" % REPO))
        elif w == "unicode":
            for l in UNIS: u.append(("unicode/" + l, "%s/unicode/%s.cpp" % (REPO, l), "^%s/unicode/" % REPO))
        elif w == "src": u.append(("src/reflex", REPO + "/src/reflex.cpp", "^%s/src/" % REPO))
        elif w.startswith("lib/"): u.append((w, "%s/%s.cpp" % (REPO, w), "^%s/lib/" % REPO))
        else: raise AnalysisError("unknown unit " + w)
    return u

def load(which, flags=(), drop=()):
    if not os.path.exists(TOOL):
        r = subprocess.run(["make", "-C", os.path.join(VERIF, "tool")], capture_output=True, text=True)
        if r.returncode: raise AnalysisError("cannot build exporter: " + r.stderr[-2000:])
    tmp = tempfile.mkdtemp(prefix="rxsa.")
    fl = [f for f in QUICK_FLAGS if f not in drop] + list(flags)
    inc = ["-I%s/include" % REPO, "-I%s/fuzzy" % REPO, "-I%s/src" % REPO]
    P = Prog()
    try:
        def one(u):
            name, src, rx = u
            out = os.path.join(tmp, name.replace("/", "_") + ".json")
            r = subprocess.run([TOOL, out, rx, "--"] + fl + inc + [src], capture_output=True, text=True, cwd=tmp)
            if r.returncode or not os.path.exists(out):
                raise AnalysisError("cannot analyse %s: %s" % (src, (r.stderr or r.stdout)[-3000:]))
            return name, out
        with concurrent.futures.ThreadPoolExecutor(8) as ex:
            for name, out in ex.map(one, units(which)): P.add(out, name)
        P.finish()
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return P

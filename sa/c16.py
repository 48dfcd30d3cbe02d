"""Output and input files of the generator. For every place where a file or stream is opened, the program is interpreted abstractly under
the assumption that (OPEN) this open fails, (WRITE) a write to it fails, or (FLUSH) what is still buffered cannot be written when it is
flushed or closed. Results of the C and C++ library follow from the assumption; all else is unknown. Under each assumption no path may
reach the normal end of the function (or, when the outcome is returned, of its callers): it has to end in exit() with a failing status or
in an exception that no handler swallows. FAIL: where the program exits with a failing status a message is written first."""
from core import *
LEVEL = "other"
sys.setrecursionlimit(10000)
OPENERS = {"fopen": (0, 1), "freopen": (0, 1), "fdopen": (0, 1), "tmpfile": (None, None), "popen": (0, 1)}
FCHECK = {"fclose", "ferror", "fflush", "pclose"}
SMETH = {"open", "is_open", "close", "good", "fail", "bad", "eof", "operator!", "operator bool", "flush", "clear", "rdstate", "exceptions", "setstate"}
ZERO, ONE, UNK = ("n", 0), ("n", 1), None
NZ = ("nz",)
STD = {"std::runtime_error": "std::exception", "std::logic_error": "std::exception", "std::ios_base::failure": "std::exception", "std::system_error": "std::runtime_error", "std::out_of_range": "std::logic_error", "std::invalid_argument": "std::logic_error", "std::length_error": "std::logic_error", "std::bad_alloc": "std::exception"}

def ostreamtype(t): return bool(re.search(r"\bbasic_o?f?stream<|\bofstream\b|\bostream\b|\bbasic_ofstream<|\bbasic_ostream<", t or "")) and "istream" not in t
def fstreamtype(t): return bool(re.search(r"\bbasic_o?fstream<", t or "")) and not (t or "").rstrip().endswith("*")
def ifstreamtype(t): return bool(re.search(r"\bbasic_ifstream<", t or "")) and not (t or "").rstrip().endswith("*")
def filetype(t): return bool(re.search(r"\b(_IO_FILE|FILE) \*", t or ""))

class Done(Exception): pass
class TooMuch(Exception): pass

class Run:
    """abstract interpretation of one function with the functions it calls, under one hypothesis"""
    def __init__(self, A, site, hyp, budget=60000):
        self.A = A; self.P = A.P; self.site = site; self.touch = A.touchkind(site); self.hyp = hyp; self.success_exit = []; self.steps = 0; self.budget = budget; self.hit = False
        self.cache = {}
    # state: dict; "phase" True once the assumed failure happened
    def hypat(self, f, i): return self.site == (f.id, i)
    def val(self, f, s, cx, i):
        if i is None or i < 0: return UNK
        nd = f.n(i); k = nd["k"]; c = nd.get("c", ())
        if (cx, i) in s: return s[(cx, i)]
        if k == "ConditionalOperator":
            t = self.truth(self.val(f, s, cx, c[0]))
            if t is not None: return self.val(f, s, cx, c[1] if t else c[2])
            a, b = self.val(f, s, cx, c[1]), self.val(f, s, cx, c[2]); return a if a == b else UNK
        if nd.get("cv") is not None and k not in ("DeclRefExpr", "MemberExpr"):
            return ZERO if int(nd["cv"]) == 0 else ("n", int(nd["cv"]))
        if k in ("GNUNullExpr", "CXXNullPtrLiteralExpr"): return ZERO
        if k == "StringLiteral": return ("s", nd.get("v", ""))
        if k in STRIP and c:
            v = self.val(f, s, cx, c[0])
            if k in CASTS and nd.get("t") == "bool" and v is not None: 
                t = self.truth(v); return UNK if t is None else ("n", int(t))
            return v
        if k in ("CXXConstructExpr", "CXXTemporaryObjectExpr") and len(c) == 1 and nd.get("copy"): return self.val(f, s, cx, c[0])
        if k == "DeclRefExpr":
            if nd.get("n") == "stdout" and nd.get("dk") == "global": return ("F", "stdout")
            if nd.get("n") in ("stdin", "stderr"): return NZ
            if nd.get("n") == "cout" and nd.get("dk") == "global": return ("O", "cout")
            if nd.get("dk") in ("var", "parm", "slocal"):
                if fstreamtype(nd.get("t")) or ifstreamtype(nd.get("t")):
                    v = s.get(("v", cx, nd["d"])); return v if v is not None else ("O", (cx, nd["d"]))
                return s.get(("v", cx, nd["d"]))
            return UNK
        if k == "MemberExpr":
            if fstreamtype(nd.get("t")): return ("O", ("m", nd["d"]))
            return s.get(("m", nd["d"]))
        if k == "UnaryOperator":
            o = nd["op"]
            if o == "&":
                j = f.strip(c[0]); x = f.n(j)
                if ostreamtype(x.get("t")):
                    return self.val(f, s, cx, c[0])
                l = self.loc(f, s, cx, c[0]); return ("a", l) if l is not None else NZ
            if o == "*":
                v = self.val(f, s, cx, c[0])
                if v and v[0] == "O": return v
                if v and v[0] == "a": return s.get(v[1])
                if f.n(f.strip(c[0])).get("fn", "").startswith("__errno_location"): return NZ
                return UNK
            v = self.val(f, s, cx, c[0])
            if o == "!": t = self.truth(v); return UNK if t is None else ("n", int(not t))
            if o == "-" and v and v[0] == "n": return ("n", -v[1])
            return UNK
        if k in ("BinaryOperator", "CompoundAssignOperator"):
            o = nd["op"]
            if o == "=": return self.val(f, s, cx, c[0])
            if o == ",": return self.val(f, s, cx, c[1])
            if k == "CompoundAssignOperator": return self.val(f, s, cx, c[0])
            a, b = self.val(f, s, cx, c[0]), self.val(f, s, cx, c[1])
            if o in ("&&", "||"):
                x, y = self.truth(a), self.truth(b)
                if o == "&&": return ZERO if False in (x, y) else ONE if x and y else UNK
                return ONE if True in (x, y) else ZERO if x is False and y is False else UNK
            if o in ("|", "&") and "bool" in (f.n(f.strip(c[0])).get("t"), f.n(f.strip(c[1])).get("t")) or o == "|":
                x, y = self.truth(a), self.truth(b)
                if o == "|": return NZ if True in (x, y) else ZERO if x is False and y is False else UNK
                return ZERO if False in (x, y) else UNK
            if o in ("==", "!="):
                e = self.equal(a, b)
                return UNK if e is None else ("n", int(e == (o == "==")))
            if o in ("<", ">", "<=", ">=") and a and b and a[0] == b[0] == "n":
                return ("n", int({"<": a[1] < b[1], ">": a[1] > b[1], "<=": a[1] <= b[1], ">=": a[1] >= b[1]}[o]))
            return UNK
        return UNK
    def equal(self, a, b):
        if a is None or b is None: return None
        if a[0] == "n" and b[0] == "n": return a[1] == b[1]
        for x, y in ((a, b), (b, a)):
            if x[0] == "n" and x[1] == 0 and y[0] in ("F", "O", "nz", "s", "a"): return False
        if a[0] == b[0] and a[0] in ("F", "O"): return a == b
        if NZ in (a, b) and {a[0], b[0]} & {"F", "O"} : return False     # stdin, stderr
        return None
    def truth(self, v):
        if v is None: return None
        if v[0] == "n": return v[1] != 0
        return True
    def loc(self, f, s, cx, i):
        j = i
        while f.k(j) in STRIP and f.c(j): j = f.c(j)[0]
        nd = f.n(j)
        if nd["k"] == "DeclRefExpr" and nd.get("dk") in ("var", "parm", "slocal"):
            r = s.get(("r", cx, nd["d"]))
            return r if r is not None else ("v", cx, nd["d"])
        if nd["k"] == "MemberExpr" and nd.get("dk") == "field": return ("m", nd["d"])
        if nd["k"] == "UnaryOperator" and nd["op"] == "*":
            v = self.val(f, s, cx, nd["c"][0])
            if v and v[0] == "a": return v[1]
        return None
    def put(self, s, l, v):
        if l is None: return
        if v is None: s.pop(l, None)
        else: s[l] = v
    # ---- library calls
    def status(self, s, o): return s.get(("st", o), ("?", "?"))
    def hypo(self, s, o): return s.get(("hy", o), False)
    def write(self, s, v, f, i):
        """something is written to the file or stream v"""
        if not v or v[0] not in ("F", "O"): return
        if not self.hypo(s, v): return
        if self.hyp == "OPEN": return
        st = self.status(s, v)
        if not s.get("phase"): s["phase"] = True; s["from"] = (f.id, i)
        if st[1] == "ok": s[("st", v)] = (st[0], "bad" if self.hyp == "WRITE" else "pending")
    def flush(self, s, v):
        st = self.status(s, v)
        if st[1] == "pending": s[("st", v)] = (st[0], "bad"); return False
        return st[1] != "bad" if st[1] != "?" else None
    def opened(self, s, v, here, mode):
        s[("st", v)] = (True, "ok")
        if here and mode != "r": s[("hy", v)] = True
        else: s.pop(("hy", v), None)
    def mode(self, v):
        if v and v[0] == "s": return "r" if v[1].startswith("r") and "+" not in v[1] else "w"
        return "w"
    def lib(self, f, s, cx, i, name, nd, args, base):
        """effect and value of a library call"""
        here = self.hypat(f, i)
        if name in OPENERS:
            m = OPENERS[name][1]; mode = self.mode(self.val(f, s, cx, args[m])) if m is not None and m < len(args) else "w"
            if here and self.hyp == "OPEN": s["phase"] = True; s["from"] = (f.id, i); return ZERO
            v = ("F", (f.id, i)); self.opened(s, v, here, mode); return v
        if name in FCHECK and args:
            v = self.val(f, s, cx, args[0])
            if v is None or v[0] != "F": return UNK if not s.get("phase") else UNK
            st = self.status(s, v)
            if name == "ferror": return NZ if st[1] == "bad" else ZERO if st[1] in ("ok", "pending") else UNK
            ok = self.flush(s, v)
            if name in ("fclose", "pclose"):
                # a failure that was noticed before is not reported again
                r = ZERO if st[1] in ("ok", "bad") else ("n", -1) if st[1] == "pending" else UNK
                return r
            return ("n", -1) if st[1] == "pending" else ZERO if st[1] in ("ok",) else UNK if st[1] == "?" else ZERO
        if base is not None and name in SMETH:
            v = self.val(f, s, cx, base)
            if v is None or v[0] != "O": return UNK
            st = self.status(s, v)
            if name == "open":
                if here and self.hyp == "OPEN": s[("st", v)] = (False, "bad"); s["phase"] = True; s["from"] = (f.id, i); return UNK
                self.opened(s, v, here, "w"); return UNK
            if name == "is_open": return UNK if st[0] == "?" else ONE if st[0] else ZERO
            if name == "close":
                self.flush(s, v); st = self.status(s, v)
                if st[0] != "?": s[("st", v)] = (False, st[1] if st[0] else "bad")
                return UNK
            if name == "flush": self.flush(s, v); return v
            if name == "clear": s[("st", v)] = (st[0], "ok"); return UNK
            good = None if st[1] == "?" else st[1] != "bad"
            if name in ("good", "operator bool"): return UNK if good is None else ("n", int(good))
            if name in ("fail", "bad", "operator!"): return UNK if good is None else ("n", int(not good))
            if name == "rdstate": return UNK if good is None else ZERO if good else NZ
            return UNK
        if name in ("exit", "_exit", "quick_exit"):
            v = self.val(f, s, cx, args[0]) if args else UNK
            if s.get("phase") and self.truth(v) is not True: self.success_exit.append((dict(s), f, i))
            raise Done
        if name in ("abort", "terminate") and base is None: raise Done
        return None
    def element(self, f, s, cx, i, depth):
        """returns list of states after the element (a call may end in several)"""
        nd = f.n(i); k = nd["k"]; c = nd.get("c", ())
        if k == "BinaryOperator" and nd["op"] == "=":
            l = self.loc(f, s, cx, c[0]); t = f.n(f.strip(c[0])).get("t") or ""
            v = self.val(f, s, cx, c[1])
            self.put(s, l, v if self.tracked(t) else None); self.alias(f, s, c[1], v); return [s]
        if k == "CompoundAssignOperator" or k == "UnaryOperator" and nd["op"] in ("++", "--"):
            l = self.loc(f, s, cx, c[0])
            if l is not None:
                v = None
                if k == "CompoundAssignOperator" and nd["op"] in ("|=", "&="):
                    a, b = self.truth(s.get(l)), self.truth(self.val(f, s, cx, c[1]))
                    if nd["op"] == "|=": v = ONE if True in (a, b) else ZERO if a is False and b is False else None
                    else: v = ZERO if False in (a, b) else ONE if a and b and f.n(f.strip(c[0])).get("t") == "bool" else None
                self.put(s, l, v)
            return [s]
        if k == "DeclStmt":
            for d in nd["decls"]:
                t = d["t"]; l = ("v", cx, d["d"]); j = d["i"]
                if fstreamtype(t) or ifstreamtype(t):
                    o = ("O", (cx, d["d"])); s[("st", o)] = (False, "ok"); s.pop(("hy", o), None)
                    x = f.n(f.strip(j)) if j is not None and j >= 0 else None
                    if x is not None and x["k"] == "CXXConstructExpr" and len(x.get("c", ())) >= 1 and not x.get("copy"):
                        if self.hypat(f, i) and self.hyp == "OPEN": s[("st", o)] = (False, "bad"); s["phase"] = True; s["from"] = (f.id, i)
                        else: self.opened(s, o, self.hypat(f, i), "r" if ifstreamtype(t) else "w")
                    continue
                if j is None or j < 0: s.pop(l, None); continue
                if t.endswith("&") and not ostreamtype(t):
                    r = self.loc(f, s, cx, j)
                    if r is not None: s[("r", cx, d["d"])] = r
                    continue
                v = self.val(f, s, cx, j)
                self.put(s, l, v if self.tracked(t) or ostreamtype(t) else None); self.alias(f, s, j, v)
            return [s]
        if k == "CXXThrowExpr": raise Done
        if k == "ReturnStmt":
            if c and c[0] is not None and c[0] >= 0:
                v = self.val(f, s, cx, c[0]); self.put(s, ("ret", cx), v); self.alias(f, s, c[0], v)
            return [s]
        if k in ("CallExpr", "CXXMemberCallExpr", "CXXOperatorCallExpr", "CXXConstructExpr", "CXXTemporaryObjectExpr"):
            return self.call(f, s, cx, i, nd, depth)
        return [s]
    def alias(self, f, s, j, v):
        """stdout or cout becomes the file to write to"""
        if v in (("F", "stdout"), ("O", "cout")):
            s.setdefault(("st", v), (True, "ok"))
            if self.site == ("std", v): s[("hy", v)] = True
    def tracked(self, t):
        t = re.sub(r"\b(const|volatile)\b", "", t).strip().rstrip("&").strip()
        return t in ("bool", "int", "unsigned int", "long", "size_t", "unsigned long", "char", "short") or t.endswith("*")
    def call(self, f, s, cx, i, nd, depth):
        c = nd.get("c", ()); k = nd["k"]; name = nd.get("n") or (nd.get("fn") or "").split("(")[0].split("::")[-1]
        base = None; args = list(c[1:]) if k in ("CallExpr", "CXXMemberCallExpr", "CXXOperatorCallExpr") else list(c)
        if k == "CXXMemberCallExpr":
            m = f.n(f.strip(c[0])); base = m["c"][0] if m["k"] == "MemberExpr" and m.get("c") else None
        g = self.P.fns.get(nd.get("fn"))
        if k == "CXXOperatorCallExpr":
            if nd.get("op") == "<<" and len(c) > 2:
                v = self.val(f, s, cx, c[1])
                if v and v[0] == "O":
                    if not self.direct(f, c[1]): self.write(s, v, f, i)
                    a = f.n(f.strip(c[2]))
                    if a["k"] == "DeclRefExpr" and a.get("n") in ("endl", "flush"): self.flush(s, v)
                    s[(cx, i)] = v
                return [s]
            if nd.get("op") == "!" and len(c) > 1:
                v = self.val(f, s, cx, c[1])
                if v and v[0] == "O":
                    st = self.status(s, v)
                    if st[1] != "?": s[(cx, i)] = ("n", int(st[1] == "bad"))
                return [s]
            return [s]
        if g is None or not g.cfg:
            v = self.lib(f, s, cx, i, name, nd, args, base)
            if v is not None: s[(cx, i)] = v
            else:
                s.pop((cx, i), None)
                # output functions of the C library
                if name not in OPENERS and name not in FCHECK and base is None:
                    for a in args:
                        x = self.val(f, s, cx, a)
                        if x and x[0] == "F" and not self.direct(f, a) and filetype(f.n(a).get("t")): self.write(s, x, f, i)
                elif base is not None and name in ("write", "put"):
                    x = self.val(f, s, cx, base)
                    if x and x[0] == "O" and not self.direct(f, base): self.write(s, x, f, i); s[(cx, i)] = x
                # unknown functions may change variables whose address they get
                for a in args:
                    x = self.val(f, s, cx, a)
                    if x and x[0] == "a": s.pop(x[1], None)
            return [s]
        if (g.id not in self.touch and g.id not in self.A.noreturn) or depth > 12:
            # the function only writes
            if g.id in self.A.writes:
                for l, v in [(l, v) for l, v in s.items() if isinstance(l, tuple) and l[0] == "m"]: self.write(s, v, f, i)
            for p, a in zip(g.params, args):
                v = self.val(f, s, cx, a)
                if v and v[0] in ("F", "O") and (filetype(p["t"]) or ostreamtype(p["t"])): self.write(s, v, f, i)
                elif v and v[0] == "a": s.pop(v[1], None)
                if p["t"].endswith("&") and "const" not in p["t"]: self.put(s, self.loc(f, s, cx, a), None)
            s.pop((cx, i), None)
            return [s]
        # inline
        ncx = cx + ((f.id, i),)
        if any(x == (f.id, i) for x in cx): return [s]          # recursion
        t = dict(s)
        for p, a in zip(g.params, args):
            l = ("v", ncx, p["d"])
            if p["t"].endswith("&") and not ostreamtype(p["t"]):
                r = self.loc(f, s, cx, a)
                if r is not None: t[("r", ncx, p["d"])] = r
            else: self.put(t, l, self.val(f, s, cx, a))
        outs = []
        for o in self.function(g, t, ncx, depth + 1):
            r = o.pop(("ret", ncx), None)
            for q in [q for q in o if isinstance(q, tuple) and (len(q) > 1 and q[1] == ncx or q[0] == ncx) or isinstance(q, tuple) and q[0] in ("st", "hy") and isinstance(q[1], tuple) and q[1][0] == "O" and isinstance(q[1][1], tuple) and q[1][1][0] == ncx]: del o[q]
            if r is not None: o[(cx, i)] = r
            else: o.pop((cx, i), None)
            outs.append(o)
        return outs
    def direct(self, f, i):
        nd = f.n(f.strip(i))
        if nd["k"] == "CXXOperatorCallExpr" and nd.get("op") == "<<": return self.direct(f, nd["c"][1])
        return nd["k"] == "DeclRefExpr" and nd.get("n") in ("stdout", "cout", "stderr", "cerr")
    # ---- functions
    def function(self, f, s0, cx, depth, start=None):
        key = lambda b, s: (b, frozenset(s.items()))
        seen = set(); todo = [(f.entry if start is None else start, s0)]; outs = {}
        while todo:
            b, s = todo.pop()
            kk = key(b, s)
            if kk in seen: continue
            seen.add(kk); self.steps += 1
            if self.steps > self.budget: raise TooMuch(f.id)
            if b == f.exit: outs[frozenset(s.items())] = s; continue
            B = f.cfg[b]
            sts = [dict(s)]
            for e in B["e"]:
                if not isinstance(e, int):
                    continue
                nx = []
                for t in sts:
                    try: nx += self.element(f, t, cx, e, depth)
                    except Done: pass
                sts = nx
                if not sts: break
            if B.get("noret") and not B["s"]: continue
            for t in sts:
                cond = B.get("cond", -1)
                if B.get("tk") == "CXXTryStmt":
                    for y in B["s"]: todo.append((y, t))
                    continue
                tr = None
                if cond is not None and cond >= 0 and len(B["s"]) == 2 and B.get("tk") != "SwitchStmt":
                    c = cond
                    while True:
                        j = c
                        while f.k(j) in ("ParenExpr", "ImplicitCastExpr", "ExprWithCleanups") and f.c(j): j = f.c(j)[0]
                        if f.n(j)["k"] == "BinaryOperator" and f.n(j)["op"] in ("&&", "||"): c = f.c(j)[1]
                        else: break
                    tr = self.truth(self.val(f, t, cx, c))
                keep = None
                if cond is None or cond < 0: keep = self.root(f, B)
                else: keep = self.top(f, cond)
                u = {q: v for q, v in t.items() if not (isinstance(q, tuple) and q[0] == cx and len(q) == 2 and isinstance(q[1], int) and self.top(f, q[1]) != keep)}
                for q, y in enumerate(B["s"]):
                    if y is None: continue
                    if tr is not None and len(B["s"]) == 2 and q != (0 if tr else 1): continue
                    if B.get("noret"): continue
                    w = dict(u)
                    if tr is None and cond is not None and cond >= 0 and len(B["s"]) == 2 and B.get("tk") != "SwitchStmt": self.learn(f, w, cx, cond, q == 0)
                    todo.append((y, w))
        return list(outs.values())
    def learn(self, f, s, cx, i, truth):
        j = f.strip(i); nd = f.n(j)
        if nd["k"] == "UnaryOperator" and nd["op"] == "!": return self.learn(f, s, cx, nd["c"][0], not truth)
        if nd["k"] in ("DeclRefExpr", "MemberExpr") and nd.get("t") == "bool":
            l = self.loc(f, s, cx, j)
            if l is not None and s.get(l) is None: s[l] = ONE if truth else ZERO
    def top(self, f, i):
        c = self.cache.setdefault(("top", f.id), {})
        if i not in c:
            j = i
            while True:
                p = f.par.get(j)
                if p is None or f.k(p) in ("CompoundStmt", "IfStmt", "WhileStmt", "ForStmt", "DoStmt", "SwitchStmt", "CaseStmt", "DefaultStmt", "CXXForRangeStmt", "LabelStmt", "CXXTryStmt", "CXXCatchStmt"): break
                j = p
            c[i] = j
        return c[i]
    def root(self, f, B):
        e = [x for x in B["e"] if isinstance(x, int)]
        return self.top(f, e[-1]) if e else None

class Analysis:
    def __init__(self, P, R):
        self.P = P; self.R = R; self.callers = {}; direct = set(); self.writes = set(); self.noreturn = set()
        calls = {}; checks = set(); self.cfiles = set()
        for f in P.fns.values():
            for i, nd in enumerate(f.nodes):
                g = nd.get("fn")
                if nd["k"] in ("CallExpr", "CXXMemberCallExpr", "CXXConstructExpr", "CXXTemporaryObjectExpr", "CXXOperatorCallExpr"):
                    n = nd.get("n") or (g or "").split("(")[0].split("::")[-1]
                    if g in P.fns: calls.setdefault(f.id, set()).add(g); self.callers.setdefault(g, set()).add(f.id)
                    elif n in OPENERS or n in FCHECK: direct.add(f.id); self.cfiles.add(f.id)
                    elif nd["k"] == "CXXMemberCallExpr" and n in SMETH and n not in ("exceptions",):
                        m = f.n(f.strip(nd["c"][0])); b = f.n(f.strip(m["c"][0])).get("t", "") if m.get("c") else ""
                        if ostreamtype(b) or fstreamtype(b) or ifstreamtype(b): (checks if n in ("good", "fail", "bad", "is_open", "rdstate", "eof", "operator!", "operator bool") else direct).add(f.id)
                if nd["k"] == "CXXOperatorCallExpr" and nd.get("op") == "<<" and len(nd["c"]) > 2:
                    if self.memberstream(f, nd["c"][1]): self.writes.add(f.id)
                if nd["k"] == "BinaryOperator" and nd["op"] == "=" and re.search(r"ostream", f.n(f.strip(nd["c"][0])).get("t") or ""): direct.add(f.id)
        # functions that never return
        ch = True
        while ch:
            ch = False
            for f in P.fns.values():
                if f.id in self.noreturn or not f.cfg: continue
                if not self.returns(f): self.noreturn.add(f.id); ch = True
        # a function that only asks for the state of a stream matters when it can act on it
        for i in checks:
            f = P.fns[i]
            if self.informs(f) or any(nd["k"] == "CXXThrowExpr" or nd.get("fn") in self.noreturn or nd["k"] == "CallExpr" and nd.get("n") == "exit" for nd in f.nodes): direct.add(i)
        for f in P.fns.values():
            if any(nd["k"] == "BinaryOperator" and nd["op"] == "=" and filetype(f.n(f.strip(nd["c"][0])).get("t")) for nd in f.nodes): self.cfiles.add(f.id)
        self.direct = direct; self.touch = self.close(direct | self.cfiles, calls); self.touchF = self.close(self.cfiles, calls); self.touchS = self.close(direct - self.cfiles | direct & checks | {f for f in direct if self.streams(P.fns[f])}, calls); self.writes = self.close(self.writes, calls)
        self.calls = calls
    def streams(self, f):
        return any(ostreamtype(nd.get("t")) or fstreamtype(nd.get("t")) or ifstreamtype(nd.get("t")) for nd in f.nodes)
    def touchkind(self, site):
        if site[0] == "std": return self.touchF if site[1][0] == "F" else self.touchS
        if site[0] is None: return self.touch
        return self.touchF if self.P.fns[site[0]].n(site[1])["k"] == "CallExpr" else self.touchS
    def memberstream(self, f, i):
        nd = f.n(f.strip(i))
        if nd["k"] == "CXXOperatorCallExpr" and nd.get("op") == "<<": return self.memberstream(f, nd["c"][1])
        return nd["k"] == "UnaryOperator" and nd["op"] == "*" and f.n(f.strip(nd["c"][0]))["k"] == "MemberExpr" and ostreamtype(nd.get("t"))
    def close(self, s, calls):
        s = set(s); ch = True
        while ch:
            ch = False
            for f, gs in calls.items():
                if f not in s and gs & s: s.add(f); ch = True
        return s
    def returns(self, f):
        seen = set(); st = [f.entry]
        while st:
            b = st.pop()
            if b in seen or b is None: continue
            seen.add(b)
            if b == f.exit: return True
            B = f.cfg[b]
            if B.get("noret"): continue
            if any(isinstance(e, int) and (f.n(e)["k"] == "CXXThrowExpr" or f.n(e).get("fn") in self.noreturn) for e in B["e"]): continue
            st.extend(B["s"])
        return False
    def sites(self):
        out = []
        for f in self.P.fns.values():
            if not f.cfg: continue
            for i, nd in enumerate(f.nodes):
                if nd["k"] == "CallExpr" and nd.get("n") in OPENERS and nd.get("fn") not in self.P.fns: out.append((f, i, "file"))
                elif nd["k"] == "CXXMemberCallExpr" and nd.get("n") == "open" and "stream" in (nd.get("cls") or ""): out.append((f, i, "stream"))
                elif nd["k"] == "DeclStmt":
                    for d in nd["decls"]:
                        if (fstreamtype(d["t"]) or ifstreamtype(d["t"])) and d["i"] is not None and d["i"] >= 0:
                            x = f.n(f.strip(d["i"]))
                            if x["k"] == "CXXConstructExpr" and x.get("c") and not x.get("copy"): out.append((f, i, "stream"))
        return out
    def informs(self, f):
        """the outcome may be told to the caller"""
        if f.d.get("ret", f.d.get("t", "void")) not in ("void",) and self.rettype(f) != "void": return True
        for p in f.params:
            t = p["t"]
            if re.search(r"FILE \*\*|FILE \*\s*&|bool ?[*&]|int ?[*&]$|stream<.*> ?[&*]$", t) and not t.startswith("const"): return True
        return False
    def rettype(self, f):
        for nd in f.nodes:
            if nd["k"] == "ReturnStmt" and nd.get("c") and nd["c"][0] is not None and nd["c"][0] >= 0: return "value"
        return "void"
    def members(self, f, site):
        """a stream or file kept in a member (of this class) outlives the function"""
        for i, nd in enumerate(f.nodes):
            if nd["k"] == "BinaryOperator" and nd["op"] == "=":
                l = f.n(f.strip(nd["c"][0]))
                if l["k"] == "MemberExpr" and (filetype(l.get("t")) or re.search(r"stream", l.get("t") or "")): return True
        return False
    def judge(self, f, site, hyp, depth=0, trail=()):
        """list of (function, how) in which the failure goes unnoticed; [] when it is reported"""
        r = Run(self, site, hyp)
        outs = r.function(f, {}, (), 0)
        self.R.extra["paths"] = self.R.extra.get("paths", 0) + r.steps
        if r.success_exit: return [(r.success_exit[0][1], "exit with a status of success")]
        bad = [o for o in outs if o.get("phase")]
        std = site[0] == "std"
        held = bool(outs) and any(self.held(o) for o in outs)
        if not bad and not held: return []
        if f.name == "main" and f.cls is None:
            v = [o for o in bad if Run.truth(r, o.get(("ret", ()), ZERO)) is not True]
            return [(f, "main() returns success")] if v else []
        if self.informs(f) or (held if not bad else all(self.held(o) for o in bad)):
            up = sorted(self.callers.get(f.id, ())); res = []
            if depth < 6 and f.id not in trail:
                for g in up:
                    if self.P.fns[g].cfg: res += self.judge(self.P.fns[g], site, hyp, depth + 1, trail + (f.id,))
            return res
        return [(f, "%s() ends normally" % f.name)]
    def held(self, o):
        """the resource is kept in a member and still in use"""
        for k, v in o.items():
            if isinstance(k, tuple) and k[0] == "m" and v and v[0] in ("F", "O") and o.get(("hy", v)):
                if v[0] == "F" or v[1] == "cout" or isinstance(v[1], tuple) and v[1][0] == "m": return True
            if isinstance(k, tuple) and k[0] == "hy" and isinstance(k[1][1], tuple) and k[1][1][0] == "m": return True
        return False

def what(f, i):
    return f.text(i)[:70]

def check(R):
    R.rule("OPEN", "a file that cannot be opened is reported, with a failing status", 3)
    R.rule("WRITE", "a failed write is reported, with a failing status", 2)
    R.rule("FLUSH", "a failure of the final flush or close is reported, with a failing status", 2)
    R.rule("HANDLER", "no handler swallows the report", 0)
    R.rule("FAIL", "a message is written before the program exits with a failing status", 1)
    R.extra = getattr(R, "extra", None) or {}
    P = load(["lib/pattern", "src"]); R.units = P.tus
    A = Analysis(P, R)
    sites = A.sites()
    if not sites: raise AnalysisError("no file is opened anywhere")
    def run(rule, f, site, hyp, label, at):
        try: bad = A.judge(f, site, hyp)
        except TooMuch as e:
            R.note("undecided: %s of %s (too many states in %s)" % (rule, label, e)); return
        if not bad: R.ok(rule, label)
        else:
            g, how = bad[0]
            R.bad(rule, "%s %s: %s" % (hyp, label, how), at, {"OPEN": "when the file cannot be opened, %s", "WRITE": "when a write fails, %s", "FLUSH": "when the last buffered output cannot be written, %s"}[hyp] % how)
    for f, i, kind in sites:
        # the function in which the file is used: an opener that only hands the file on is judged in its callers
        nd = f.n(i); label = "%s: %s" % (f.name, what(f, i)); site = (f.id, i)
        reading = False
        if kind == "stream" and nd["k"] == "DeclStmt": reading = any(ifstreamtype(d["t"]) for d in nd["decls"])
        tops = [f]
        if f.name in ("fopen_s",) or (kind == "file" and A.informs(f)):
            tops = [P.fns[g] for g in sorted(A.callers.get(f.id, ())) if P.fns[g].cfg] or [f]
        for g in tops:
            lab = label if g is f else "%s: %s" % (g.name, what(f, i))
            if g is f: calls = [None]
            run("OPEN", g, site, "OPEN", lab, g.where() if g is not f else f.at(i))
            if not reading:
                run("WRITE", g, site, "WRITE", lab, g.where() if g is not f else f.at(i))
                run("FLUSH", g, site, "FLUSH", lab, g.where() if g is not f else f.at(i))
    # standard output as the file to write to
    for v, n in ((("F", "stdout"), "stdout"), (("O", "cout"), "cout")):
        fs = set()
        for f in P.fns.values():
            if not f.cfg: continue
            for i, nd in enumerate(f.nodes):
                if nd["k"] == "DeclRefExpr" and nd.get("n") == n and nd.get("dk") == "global":
                    p = f.par.get(i)
                    while p is not None and (f.k(p) in STRIP or f.k(p) == "ConditionalOperator" or f.k(p) == "UnaryOperator" and f.n(p)["op"] == "&"): p = f.par.get(p)
                    if p is not None and (f.k(p) in ("DeclStmt", "ReturnStmt") or f.k(p) == "BinaryOperator" and f.n(p)["op"] == "="): fs.add(f.id)
        for g in sorted(fs):
            f = P.fns[g]
            for hyp in ("WRITE", "FLUSH"): run(hyp, f, ("std", v), hyp, "%s: %s as output" % (f.name, n), f.where())
    # handlers
    thrown = {}
    for f in P.fns.values():
        if f.id in A.touch:
            for i, nd in enumerate(f.nodes):
                if nd["k"] == "CXXThrowExpr" and nd.get("c"): thrown.setdefault(re.sub(r"\bconst\b", "", f.n(f.strip(nd["c"][0])).get("t", "")).strip(), (f, i))
    def supers(t):
        out = {t}
        while t in STD or t in P.recs and P.recs[t]["bases"]:
            t = STD.get(t) or P.recs[t]["bases"][0]; out.add(t)
        return out | {"..."}
    for f in P.fns.values():
        if not f.cfg: continue
        for b, B in f.cfg.items():
            lab = B.get("label", -1)
            if lab is None or lab < 0 or f.k(lab) != "CXXCatchStmt": continue
            ct = re.sub(r"\bconst\b|&", "", f.n(lab).get("ct") or "...").strip() or "..."
            hit = [t for t in thrown if ct in supers(t)]
            if not hit: continue
            label = "%s: catch (%s)" % (f.name, ct)
            r = Run(A, (None, None), "OPEN"); outs = r.function(f, {"phase": True}, (), 0, start=b)
            if outs or r.success_exit: R.bad("HANDLER", "%s goes on" % label, f.at(lab), "a handler of %s, which reports a file that cannot be written, goes on" % ct)
            else: R.ok("HANDLER", label)
    # messages
    err = {f.id for f in P.fns.values() if any(nd["k"] == "DeclRefExpr" and nd.get("n") in ("cerr", "stderr") or nd.get("n") == "perror" for nd in f.nodes)}
    err = A.close(err, A.calls)
    for f in P.fns.values():
        for i, nd in enumerate(f.nodes):
            if nd["k"] == "CallExpr" and nd.get("n") == "exit" and nd.get("fn") not in P.fns:
                v = Run(A, (None, None), "OPEN").val(f, {}, (), nd["c"][1])
                if v is not None and v[0] == "n" and v[1] != 0:
                    label = "%s: %s" % (f.name, what(f, i))
                    if f.id in err: R.ok("FAIL", label)
                    else: R.bad("FAIL", label, f.at(i), "the program exits with a failing status without a message")
    R.assumption("C and C++ library functions report failures as documented; writes of messages and reports to std::cout itself are not output files.")

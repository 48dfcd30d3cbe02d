"""Emptiness: a path-sensitive dataflow over the control-flow graphs that tracks, per container expression, the least number of
elements it holds (or that it is empty), which variables hold its size or an iterator into it and whether that iterator was
compared with the end, and constants of scalar fields. Calls into the program are analysed in the context of the caller."""
from core import *
CAP = 20; TOP = 8; DBG = os.environ.get('DBG')
CONT = re.compile(r"^(const )?(std::(__cxx11::)?)?(vector|list|stack|queue|deque|map|multimap|set|multiset|basic_string|string)\b")
GROW1 = {"push_back", "push", "push_front", "emplace_back", "emplace", "emplace_front"}
SHRINK1 = {"pop", "pop_back", "pop_front"}
SHRINK = {"erase", "remove", "remove_if", "unique", "splice", "extract"}
NEED = {"back": 1, "front": 1, "top": 1, "pop": 1, "pop_back": 1, "pop_front": 1, "hi": 1, "lo": 1}
PURE = {"empty", "size", "length", "any", "begin", "end", "rbegin", "rend", "cbegin", "cend", "back", "front", "top", "find", "rfind", "c_str", "data", "compare", "substr",
        "at", "lower_bound", "upper_bound", "equal_range", "count", "capacity", "reserve", "find_first_of", "find_last_of", "find_first_not_of", "find_last_not_of", "hi", "lo",
        "contains", "intersects", "max_size", "get_allocator", "key_comp", "value_comp", "base", "sort", "reverse", "copy"}
SIZES = {"size", "length"}
FIRST = {"begin", "cbegin", "rbegin", "crbegin"}; LAST = {"end", "cend", "rend", "crend"}
FIND = {"find", "lower_bound", "upper_bound"}

class Empt:
    def __init__(self, P, report, extra=()):
        self.P = P; self.report = report; self.inv = {}; self.memo = {}; self.stack = []; self.mod = {}; self.rel = {}
        self._cont = {}; self.sites = {}; self.invn = set(); self._live = {}
        self.effects()
    # ---- types and paths
    def iscont(self, t):
        t = t or ""
        r = self._cont.get(t)
        if r is None:
            b = t.replace("const ", "").rstrip(" &*")
            r = False
            if not t.rstrip(" &").endswith("*"):
                r = bool(CONT.match(b)) or any(CONT.match(x) for x in self.P.bases(b)) if b in self.P.recs else bool(CONT.match(b))
            self._cont[t] = r
        return r
    def toks(self, s): return set(re.findall(r"[A-Za-z_]\w*", s))
    def path(self, F, i, depth=0):
        if i is None or i < 0 or depth > 40: return None
        i = F.strip(i); nd = F.nodes[i]; k = nd["k"]
        if k == "CXXThisExpr": return ("this",)
        if k == "DeclRefExpr":
            if nd["dk"] in ("var", "parm", "slocal"):
                al = F.alias().get(nd["d"])
                if al is not None:
                    p = self.path(F, al, depth + 1)
                    if p is not None: return p
                return (nd["d"],)
            if nd["dk"] == "global": return ("::" + nd["d"],)
            return None
        if k == "CXXOperatorCallExpr" and nd.get("op") in ("++", "--", "=") and (len(nd["c"]) == 2 or nd["op"] == "="): return self.path(F, nd["c"][1], depth + 1)
        if k == "MemberExpr":
            if nd["dk"] == "global": return ("::" + nd["d"],)
            if nd["dk"] != "field": return None
            b = self.path(F, nd["c"][0], depth + 1)
            if b is None: return None
            c0 = F.n(F.strip(nd["c"][0]))
            if nd.get("arrow") and b != ("this",) and not (c0["k"] == "CXXOperatorCallExpr" and c0.get("op") == "->"): b = b + ("*",)
            return b + (nd["n"],)
        if k == "UnaryOperator" and nd["op"] == "*":
            b = self.path(F, nd["c"][0], depth + 1)
            return b if b is None or b == ("this",) else b + ("*",)
        if k == "UnaryOperator" and nd["op"] == "&":
            b = self.path(F, nd["c"][0], depth + 1)
            return None if b is None else b[:-1] if b[-1] == "*" else b + ("&",)
        if k == "ArraySubscriptExpr" or k == "CXXOperatorCallExpr" and nd.get("op") == "[]":
            c = nd["c"] if k == "ArraySubscriptExpr" else nd["c"][1:]
            b = self.path(F, c[0], depth + 1)
            return None if b is None else b + ("[" + self.ptext(F, c[1]) + "]",)
        if k == "CXXOperatorCallExpr" and nd.get("op") in ("*", "->") and len(nd["c"]) == 2:
            b = self.path(F, nd["c"][1], depth + 1)
            return None if b is None else b + ("*",)
        if k == "CXXMemberCallExpr" and nd.get("n") in ("top", "back", "front", "at", "append", "insert", "assign"):
            m = F.n(F.strip(nd["c"][0]))
            if m["k"] != "MemberExpr": return None
            b = self.path(F, m["c"][0], depth + 1)
            if b is None: return None
            if nd["n"] in ("append", "insert", "assign"): return b if "string" in nd.get("t", "") else None
            if nd["n"] == "at": return b + ("[" + self.ptext(F, nd["c"][1]) + "]",)
            return b + ("#" + ("back" if nd["n"] == "top" else nd["n"]),)
        return None
    def ptext(self, F, i):
        nd = F.n(F.strip(i))
        return str(nd["cv"]) if "cv" in nd else F.text(i)
    # ---- effects: names of fields and globals, and parameters, a function may change
    def effects(self):
        P = self.P; self.calls = {}; self.over = P.overrides()
        direct = {}
        for f in P.fns.values():
            m = set(); cl = []
            for i, nd in enumerate(f.nodes):
                k = nd["k"]; t = None
                if k in ("BinaryOperator", "CompoundAssignOperator") and (nd["op"] == "=" or k[0] == "C"): t = [nd["c"][0]]
                elif k == "UnaryOperator" and nd["op"] in ("++", "--"): t = [nd["c"][0]]
                elif k == "CXXOperatorCallExpr":
                    if nd.get("op") in ("=", "+=", "-=", "|=", "&=", "++", "--", "<<", ">>") and nd.get("fn") not in P.fns: t = [nd["c"][1]]
                    elif nd.get("op") == "[]" and len(nd["c"]) > 1 and "map" in f.n(f.strip(nd["c"][1])).get("t", ""): t = [nd["c"][1]]
                elif k == "CXXMemberCallExpr" and nd.get("n") not in PURE and nd.get("fn") not in P.fns and not nd.get("cst"):
                    mm = f.n(f.strip(nd["c"][0]))
                    if mm["k"] == "MemberExpr": t = [mm["c"][0]]
                for x in t or ():
                    e = self.last(f, self.path(f, x))
                    if e: m.add(e)
                if k in ("CallExpr", "CXXMemberCallExpr", "CXXOperatorCallExpr", "CXXConstructExpr", "CXXTemporaryObjectExpr") and nd.get("fn"):
                    if nd["fn"] in P.fns or P.impls(nd["fn"]): cl.append((i, nd))
                    elif nd.get("pt") or True:
                        a = self.args(f, nd)
                        for x, pt in zip(a, nd.get("pt") or ()):
                            if pt.endswith("&") and not pt.startswith("const ") or pt.endswith("*") and "const" not in pt:
                                e = self.last(f, self.path(f, x))
                                if e: m.add(e)
            direct[f.id] = m; self.calls[f.id] = cl
        ch = True
        self.mod = direct
        self.impls = {}
        while ch:
            ch = False
            for f in P.fns.values():
                m = direct[f.id]; n0 = len(m)
                for i, nd in self.calls[f.id]:
                    if nd["fn"] not in self.impls: self.impls[nd["fn"]] = P.impls(nd["fn"]) if nd["fn"] not in P.fns or nd["fn"] in P.overrides() else [nd["fn"]]
                    for g in self.impls[nd["fn"]]:
                        for e in direct[g]:
                            if e[0] == "t":
                                o, ar = self.objof(f, nd)
                                e2 = self.last(f, self.path(f, o)) if o is not None else None
                                if e2: m.add(e2)
                            elif e[0] != "p": m.add(e)
                            else:
                                a = self.args(f, nd)
                                if e[1] < len(a):
                                    e2 = self.last(f, self.path(f, a[e[1]]))
                                    if e2: m.add(e2)
                if len(m) != n0: ch = True
        self.noret = set(); ch = True
        while ch:
            ch = False
            for f in P.fns.values():
                if f.id in self.noret or not f.cfg: continue
                stop = {b for b, B in f.cfg.items() if any(not isinstance(e, dict) and (f.nodes[e].get("fn") in self.noret or f.nodes[e].get("noret") or f.nodes[e].get("n") in ("exit", "abort", "_exit")) or not isinstance(e, dict) and f.k(e) == "CXXThrowExpr" for e in B["e"])}
                seen = set(); st = [f.entry]
                while st:
                    b = st.pop()
                    if b in seen or b is None or b in stop: continue
                    seen.add(b); st.extend(f.cfg[b]["s"])
                if f.exit not in seen: self.noret.add(f.id); ch = True
        self.callers = {}
        for f in P.fns.values():
            for i, nd in self.calls[f.id]:
                for g in self.impls.get(nd["fn"], ()): self.callers.setdefault(g, set()).add(f.id)
    def last(self, f, p):
        if p is None: return None
        fl = [x for x in p[1:] if x[0] not in "*[#&"]
        if fl: return ("f", fl[-1])
        if p[0].startswith("::"): return ("g", p[0])
        if p[0] == "this": return ("t",)
        for k, q in enumerate(f.params):
            if q["d"] == p[0] and ("&" in q["t"] or "*" in q["t"]): return ("p", k)
        return None
    def args(self, f, nd):
        if nd["k"] in ("CXXConstructExpr", "CXXTemporaryObjectExpr"): return nd.get("c", ())
        if nd["k"] == "CXXOperatorCallExpr" and nd.get("mem"): return nd["c"][2:]
        return nd["c"][1:]
    def objof(self, f, nd):
        if nd["k"] == "CXXMemberCallExpr":
            m = f.n(f.strip(nd["c"][0]))
            return (m["c"][0], m.get("arrow")) if m["k"] == "MemberExpr" and m.get("c") else (None, False)
        if nd["k"] == "CXXOperatorCallExpr" and nd.get("mem"): return nd["c"][1], False
        return None, False
    # ---- relevance: functions to be analysed in the context of their callers
    def mark(self, sites):
        self.interest()
        self._mark(sites)
    def _mark(self, sites):
        """sites: functions with obligations"""
        r = set(sites)
        for f in self.P.fns.values():
            if f.cfg and f.d.get("ret") == "bool" and len(f.nodes) < 80 and any(nd["k"] == "CXXMemberCallExpr" and nd.get("n") in ("empty", "size", "any") for nd in f.nodes): r.add(f.id)
            if f.cfg and len(f.nodes) < 60 and any(nd["k"] == "CXXMemberCallExpr" and nd.get("n") in GROW1 | SHRINK1 | {"clear"} for nd in f.nodes) and f.id in self.callers: r.add(f.id)
            if f.cfg and len(f.nodes) < 60 and self.iscont(f.d.get("ret")) : r.add(f.id)
            if f.cfg and any(self.nm((q["d"],), f) in self.names and "&" in q["t"] and not q["t"].startswith("const ") for q in f.params): r.add(f.id)
        st = list(r)
        while st:
            x = st.pop()
            for c in self.callers.get(x, ()):
                if c not in r: r.add(c); st.append(c)
        self.rel = r
    def nm(self, p, F=None):
        """the container a path names, without indices"""
        sh = ".".join("[" if x[0] == "[" else x for x in p[1:])
        if p[0] == "this": return "." + sh
        if p[0][0] == ":": return p[0] + "." + sh
        return (F.id if F else self.stack[-1].id) + p[0] + "." + sh
    def interest(self):
        """names of the containers whose emptiness matters"""
        P = self.P; N = set(); flow = []
        for f in P.fns.values():
            for i, nd in enumerate(f.nodes):
                k = nd["k"]
                if k == "CXXMemberCallExpr":
                    o, _ = self.objof(f, nd); p = self.path(f, o) if o is not None else None
                    if p and self.iscont(self.otype(f, o)):
                        n = nd.get("n")
                        if n in NEED: N.add(self.nm(p, f))
                        if n in SIZES:
                            x = i; q = f.par.get(x)
                            while q is not None and f.k(q) in STRIP: x = q; q = f.par.get(x)
                            if q is not None and f.k(q) == "BinaryOperator" and f.n(q)["op"] == "-" and not self.clamped(f, q): N.add(self.nm(p, f))
                        if n in FIRST or n in LAST:
                            x = i; q = f.par.get(x)
                            while q is not None and (f.k(q) in STRIP or f.k(q) == "CXXConstructExpr"): x = q; q = f.par.get(x)
                            if q is not None and (f.k(q) == "CXXOperatorCallExpr" and f.n(q).get("op") in ("*", "->", "--") or f.k(q) == "UnaryOperator"): N.add(self.nm(p, f))
                        if n in ("swap", "assign"):
                            for x in self.args(f, nd):
                                q = self.path(f, x)
                                if q: flow.append((self.nm(p, f), self.nm(q, f))); flow.append((self.nm(q, f), self.nm(p, f)))
                        elif n in ("append", "insert"):
                            for x in self.args(f, nd):
                                q = self.path(f, x)
                                if q: flow.append((self.nm(p, f), self.nm(q, f)))
                if k == "CXXOperatorCallExpr" and len(nd["c"]) > 2 and nd.get("op") in ("=", "+=", "|="):
                    p, q = self.path(f, nd["c"][1]), self.path(f, nd["c"][2])
                    if p and q: flow.append((self.nm(p, f), self.nm(q, f)))
                if k == "DeclStmt":
                    for d in nd["decls"]:
                        if self.iscont(d["t"]) and d["i"] >= 0:
                            j = f.strip(d["i"])
                            while f.k(j) == "CXXConstructExpr" and f.c(j): j = f.strip(f.c(j)[0])
                            q = self.path(f, j)
                            if q: flow.append((self.nm((d["d"],), f), self.nm(q, f)))
                        elif "iterator" in d["t"] and d["i"] >= 0:
                            # an iterator taken at the begin and dereferenced without a comparison
                            pass
                if nd.get("fn") in P.fns and k in ("CallExpr", "CXXMemberCallExpr", "CXXOperatorCallExpr", "CXXConstructExpr"):
                    for x, prm in zip(self.args(f, nd), P.fns[nd["fn"]].params):
                        q = self.path(f, x)
                        if q and self.iscont(prm["t"]): g = P.fns[nd["fn"]]; flow.append((self.nm((prm["d"],), g), self.nm(q, f))); flow.append((self.nm(q, f), self.nm((prm["d"],), g)))
        ch = True
        while ch:
            ch = False
            for a, b in flow:
                if a in N and b not in N: N.add(b); ch = True
        N.add("."); self.names = N
        # names mentioned by a function and what it calls
        self.ment = {}
        for f in P.fns.values():
            m = {nd["n"] for nd in f.nodes if nd["k"] in ("MemberExpr", "DeclRefExpr") and nd.get("dk") in ("field", "global")}
            m |= {x["field"].split("::")[-1] for x in f.d.get("inits") or () if x.get("field")}
            self.ment[f.id] = m
        ch = True
        while ch:
            ch = False
            for f in P.fns.values():
                m = self.ment[f.id]; n = len(m)
                for i, nd in self.calls[f.id]:
                    for g in self.impls.get(nd["fn"], ()): m |= self.ment[g]
                if len(m) != n: ch = True
    # ---- states
    def kill(self, s, p):
        """the variable or object at path p gets another value"""
        n = len(p); name = None
        if n == 1 and p[0].startswith("$"): name = p[0].split(":", 1)[1]
        elif p[-1][0] not in "*[#&": name = p[-1]
        for k in list(s):
            q = k[1]
            if q[:n] == p: del s[k]
            elif name and any(e[0] == "[" and name in self.toks(e) for e in q): del s[k]
            elif k[0] == "L" and s[k][1] is not None and s[k][1][:n] == p: del s[k]
        self.touch(s, p)
    def touch(self, s, p):
        if p[-1] in self.invn: s[("M", p)] = 1
    def setn(self, s, p, v):
        """v: least number of elements, 0: empty, None: unknown"""
        n = len(p)
        for k in list(s):
            q = k[1]
            if k[0] in "CLSD" and q[:n] == p: del s[k]
            elif k[0] == "L" and s[k][1] == p and s[k][0] in ("size", "emp"): del s[k]
        self.touch(s, p)
        if v is not None and self.nm(p) in self.names: s[("C", p)] = min(v, TOP)
    def getn(self, s, p): return s.get(("C", p))
    def fr(self, s): return frozenset(s.items())
    def join(self, sts):
        sts = [dict(x) for x in sts]; r = {}
        for k, v in sts[0].items():
            ok = True
            for t in sts[1:]:
                w = t.get(k)
                if w == v: continue
                if k[0] == "C" and v and w: v = min(v, w)
                else: ok = False; break
            if ok: r[k] = v
        for t in sts:
            for k in t:
                if k[0] == "M": r[k] = 1
        return frozenset(r.items())
    # ---- values
    def value(self, F, s, i):
        """link of an expression: ('c', n) constant, ('size', path, add), ('emp', path, truth if empty), ('it', path, what), ('end', path)"""
        j = i
        while True:
            if "cv" in F.nodes[j] and isinstance(F.nodes[j]["cv"], (int, bool)): return ("c", None, int(F.nodes[j]["cv"]))
            if F.k(j) in STRIP and F.c(j): j = F.c(j)[0]
            else: break
        i = F.strip(i); nd = F.nodes[i]; k = nd["k"]
        if "cv" in nd and isinstance(nd["cv"], (int, bool)): return ("c", None, int(nd["cv"]))
        if k == "CXXConstructExpr" and len(nd.get("c", ())) == 1: return self.value(F, s, nd["c"][0])
        if k in ("DeclRefExpr", "MemberExpr"):
            p = self.path(F, i)
            return s.get(("L", p)) if p is not None else None
        if k == "CXXMemberCallExpr":
            o, arrow = self.objof(F, nd)
            if o is None: return None
            p = self.path(F, o)
            if p is not None and arrow and p != ("this",): p = p + ("*",)
            if p is None: return None
            n = nd.get("n")
            if self.iscont(self.otype(F, o)):
                if n in SIZES: return ("size", p, 0)
                if n == "empty": return ("emp", p, True)
                if n == "any": return ("emp", p, False)
                if n in FIRST: return ("it", p, "b")
                if n in LAST: return ("it", p, "e")
                if n in FIND and "iterator" in nd.get("t", ""): return ("it", p, "f")
            if ("R", (F.id + "@%d" % i,)) in s: return ("c", None, s[("R", (F.id + "@%d" % i,))])
            return None
        if k in ("CallExpr", "CXXOperatorCallExpr") and ("R", (F.id + "@%d" % i,)) in s: return ("c", None, s[("R", (F.id + "@%d" % i,))])
        if k == "UnaryOperator" and nd["op"] == "!":
            v = self.value(F, s, nd["c"][0])
            return self.neg(v)
        if k == "BinaryOperator":
            op = nd["op"]
            if op in ("&&", "||"):
                r = s.get(("V", (F.id + "@%d" % i,)))
                if r is not None: return ("c", None, r)
                return self.value(F, s, nd["c"][1])
            if op in ("+", "-"):
                a, b = self.value(F, s, nd["c"][0]), self.value(F, s, nd["c"][1])
                if a and b and a[0] == "size" and b[0] == "c": return ("size", a[1], a[2] + (b[2] if op == "+" else -b[2]))
                return None
            if op in ("<", ">", "<=", ">=", "==", "!="):
                a, b = self.value(F, s, nd["c"][0]), self.value(F, s, nd["c"][1])
                return self.cmp(s, a, op, b)
        if k == "CXXOperatorCallExpr" and nd.get("op") in ("==", "!=") and len(nd["c"]) == 3:
            a, b = self.value(F, s, nd["c"][1]), self.value(F, s, nd["c"][2])
            return self.cmp(s, a, nd["op"], b, self.path(F, nd["c"][1]), self.path(F, nd["c"][2]))
        if k == "CXXOperatorCallExpr" and nd.get("op") in ("++", "--") and len(nd["c"]) == 2: return self.value(F, s, nd["c"][1])
        if k == "CXXOperatorCallExpr" and nd.get("op") == "=": return self.value(F, s, nd["c"][2])
        if k == "BinaryOperator" and nd["op"] == "=": return self.value(F, s, nd["c"][1])
        return None
    def neg(self, v):
        if v is None: return None
        if v[0] == "c": return ("c", None, int(not v[2]))
        if v[0] == "emp": return ("emp", v[1], not v[2])
        if v[0] == "size": return ("emp", v[1], True) if v[2] == 0 else None
        if v[0] == "atend": return ("atend", v[1], v[2], not v[3])
        if v[0] == "cmp": return ("cmp", v[1], {"<": ">=", ">": "<=", "<=": ">", ">=": "<", "==": "!=", "!=": "=="}[v[2]], v[3])
        return None
    def cmp(self, s, a, op, b, pa=None, pb=None):
        if a is None and b is None: return None
        if a and b and a[0] == "c" and b[0] == "c":
            x, y = a[2], b[2]
            return ("c", None, int({"<": x < y, ">": x > y, "<=": x <= y, ">=": x >= y, "==": x == y, "!=": x != y}[op]))
        if a and a[0] == "c" and b and b[0] == "size": a, b = b, a; op = {"<": ">", ">": "<", "<=": ">=", ">=": "<="}.get(op, op)
        if a and b and a[0] == "size" and b[0] == "c": return ("cmp", a[1], op, b[2] - a[2])
        if a and b and a[0] == "it" and b[0] == "it" and a[1] == b[1] and op in ("==", "!="):
            if a[2] == "e" and b[2] == "e": return ("c", None, int(op == "=="))
            if a[2] == "e": a, b, pa, pb = b, a, pb, pa
            if b[2] == "e": return ("atend", a[1], (pa, a[2]), op == "==")
            return None
        if b and b[0] == "it" and b[2] == "e" and op in ("==", "!=") and a is None and pa is not None: return ("atend", b[1], (pa, None), op == "==")
        return None
    def otype(self, F, o):
        o = F.strip(o); nd = F.nodes[o]
        t = nd.get("t", "")
        if t.endswith("*"): t = t[:-1].rstrip()
        return t
    def assume(self, F, s, v, truth):
        """refine s (a dict, changed) by link v being truth; False when impossible"""
        if v is None: return True
        if v[0] == "c": return bool(v[2]) == truth
        if v[0] == "emp": return self.refine(s, v[1], v[2] == truth)
        if v[0] == "size": return self.refine(s, v[1], not truth) if v[2] == 0 else True
        if v[0] == "cmp":
            op, c = v[2], v[3]
            if not truth: op = {"<": ">=", ">": "<=", "<=": ">", ">=": "<", "==": "!=", "!=": "=="}[op]
            p = v[1]; n = self.getn(s, p)
            if op == ">": lo = c + 1
            elif op in (">=", "=="): lo = c
            elif op == "!=" and c == 0: lo = 1
            elif op == "!=" and n is not None and n == c: lo = c + 1
            else: lo = None
            if lo is not None and lo >= 1:
                if n == 0: return False
                if self.nm(p) in self.names: s[("C", p)] = min(TOP, max(lo, n or 0))
            if op in ("<=", "==") and c == 0 or op == "<" and c <= 1: return self.refine(s, p, True)
            if op in ("<=", "<") and n is not None and n > (c if op == "<=" else c - 1): return False
            return True
        if v[0] == "atend":
            p, (var, what), pol = v[1], v[2], v[3]
            at = (pol == truth)
            if what == "b":
                if not self.refine(s, p, at): return False
            if what == "v" and at: return False
            if var is not None: s[("L", var)] = ("it", p, "e" if at else "v")
            return True
        return True
    def refine(self, s, p, empty):
        n = self.getn(s, p)
        if self.nm(p) not in self.names: return True
        if empty:
            if n: return False
            s[("C", p)] = 0
        else:
            if n == 0: return False
            if not n: s[("C", p)] = 1
        return True
    # ---- transfer
    def need(self, F, s, i, p, k, what):
        key = (F.id, i, what)
        n = self.getn(s, p) if p is not None else None
        ok = n is not None and n >= k or n is None and ("D", p) in s
        st = self.sites.setdefault(key, [True, F, i, what, p, None])
        if ok and p is not None and n is None: self.setn(s, p, k)
        if not ok and st[0]:
            st[0] = False; st[5] = [g.name for g in self.stack]
            if DBG: print("DBG", F.name, F.at(i), p, n, s)
    def valid(self, F, s, i, x):
        """iterator expression x is dereferenced"""
        v = self.value(F, s, x); p = self.path(F, x)
        if v is None or v[0] != "it": return
        key = (F.id, i, "*" + F.text(x))
        st = self.sites.setdefault(key, [True, F, i, "*" + F.text(x), v[1], None])
        ok = v[2] == "v" or v[2] == "b" and (self.getn(s, v[1]) or 0) >= 1
        if not ok and st[0]:
            st[0] = False; st[5] = [g.name for g in self.stack]
            if DBG: print("DBG", F.name, F.at(i), F.text(x), v, {k: w for k, w in s.items() if k[0] in "CL"})
        if ok and p is not None and ("L", p) in s and v[2] == "b": s[("L", p)] = ("it", v[1], "v")
    def data(self, F, i):
        """the result of a function of the program: what it holds is up to that function"""
        i = F.strip(i); nd = F.nodes[i]
        while nd["k"] == "CXXConstructExpr" and len(nd.get("c", ())) == 1: i = F.strip(nd["c"][0]); nd = F.nodes[i]
        return nd["k"] in ("CallExpr", "CXXMemberCallExpr") and nd.get("fn") in self.P.fns
    def arglen(self, F, s, i):
        """least length of what is appended or assigned"""
        i = F.strip(i); nd = F.nodes[i]
        if nd["k"] == "StringLiteral": return len(nd.get("v", "")) or 0
        if nd["k"] == "CharacterLiteral" or nd.get("t") in ("char", "const char"): return 1
        if nd["k"] in ("CXXConstructExpr", "CXXTemporaryObjectExpr"):
            if nd.get("defctor") or not nd.get("c"): return 0
            return self.arglen(F, s, nd["c"][0])
        if nd["k"] == "ConditionalOperator":
            a, b = self.arglen(F, s, nd["c"][1]), self.arglen(F, s, nd["c"][2])
            return min(a, b) if a is not None and b is not None else None
        p = self.path(F, i)
        if p is not None: return self.getn(s, p)
        return None
    def call(self, F, s, i):
        """effect of a call (or construction) node: list of states"""
        nd = F.nodes[i]; k = nd["k"]; P = self.P
        fn = nd.get("fn"); n = nd.get("n")
        o, arrow = self.objof(F, nd)
        p = self.path(F, o) if o is not None else None
        if p is not None and arrow and p != ("this",): p = p + ("*",)
        cont = o is not None and self.iscont(self.otype(F, o)) and k == "CXXMemberCallExpr"
        a = self.args(F, nd)
        if cont and (n in PURE or n in GROW1 or n in SHRINK1 or n in SHRINK or n in ("clear", "resize", "insert", "append", "assign", "swap")) :
            if n in NEED and n in ("back", "front", "top", "pop", "pop_back", "pop_front", "hi", "lo") :
                self.need(F, s, i, p, NEED[n], n)
            if n == "erase" and len(a) == 1:
                x = F.strip(a[0])
                while F.k(x) == "CXXConstructExpr" and len(F.c(x)) == 1: x = F.strip(F.c(x)[0])
                if F.k(x) == "DeclRefExpr" and "iterator" in F.n(x).get("t", ""): self.valid(F, s, i, x)
            if p is None: return [s]
            cur = self.getn(s, p)
            if n in GROW1 or n == "insert" and self.one(F, a): 
                self.setn(s, p, (cur or 0) + 1 if n in GROW1 else max(1, cur or 0))
            elif n in ("insert", "append"):
                ln = max([self.arglen(F, s, x) or 0 for x in a] or [0]) if not (len(a) > 1 and F.n(F.strip(a[0])).get("t") == "unsigned long" and F.n(F.strip(a[1])).get("t") == "char") else 0
                if len(a) > 1 and n == "append": ln = 0
                self.setn(s, p, (cur or 0) + ln if (cur or ln) else None)
            elif n in SHRINK1: self.setn(s, p, cur - 1 if cur and cur > 1 else 0 if cur == 0 else None)
            elif n in SHRINK:
                d = ("D", p) in s
                self.setn(s, p, 0 if cur == 0 else None)
                if len(a) == 1 and cur != 0 and self.value(F, s, a[0]) and self.value(F, s, a[0])[0] == "c" and (d or cur): s[("D", p)] = 1
            elif n == "clear": self.setn(s, p, 0)
            elif n == "assign":
                ln = self.arglen(F, s, a[0]) if len(a) == 1 else None
                self.setn(s, p, ln)
                if ln is None and len(a) == 1 and self.data(F, a[0]): s[("D", p)] = 1
            elif n == "resize":
                v = self.value(F, s, a[0]); q = self.path(F, a[0])
                ln = None
                if v and v[0] == "c": ln = v[2] if v[2] >= 0 else None
                elif v and v[0] == "size" and v[2] != 0 :
                    b = self.getn(s, v[1])
                    ln = b + v[2] if b and b + v[2] > 0 else None
                self.setn(s, p, ln)
                if q is not None and q[-1][0] != "[" and not (v and v[0] == "c"): s[("L", q)] = ("size", p, 0)
            elif n == "swap":
                q = self.path(F, a[0])
                if q is not None:
                    x, y = self.getn(s, p), self.getn(s, q)
                    self.setn(s, p, y); self.setn(s, q, x)
                else: self.setn(s, p, None)
            return [s]
        if k == "CXXOperatorCallExpr" and nd.get("op") and fn not in P.fns or k == "CXXOperatorCallExpr" and len(nd["c"]) > 1 and self.iscont(F.n(F.strip(nd["c"][1])).get("t", "")) and nd.get("op") in ("=", "+=", "-=", "|=", "&=", "[]"):
            op = nd["op"]; c = nd["c"][1:]; q = self.path(F, c[0])
            t = F.n(F.strip(c[0])).get("t", "")
            if self.iscont(t):
                if q is None: return [s]
                cur = self.getn(s, q)
                if op == "=":
                    ln = self.arglen(F, s, c[1]); src = self.path(F, c[1])
                    if src != q:
                        self.setn(s, q, ln)
                        if ln is None and self.data(F, c[1]): s[("D", q)] = 1
                elif op in ("+=", "|="):
                    ln = self.arglen(F, s, c[1])
                    if op == "|=" and self.pairlike(F, c[1]): ln = 1
                    v = (cur or 0) + (ln or 0) if op == "+=" else max(cur or 0, ln or 0)
                    self.setn(s, q, v if v else 0 if cur == 0 and ln == 0 else None)
                elif op in ("-=", "&="): self.setn(s, q, 0 if cur == 0 else None)
                elif op == "[]" and "map" in t and self.nm(q) in self.names: s[("C", q)] = max(1, cur or 0)
                return [s]
            if op in ("++", "--") and q is not None:
                if op == "--":
                    v = self.value(F, s, c[0])
                    if v and v[0] == "it" and v[2] == "e": self.need(F, s, i, v[1], 1, "--end")
                v = s.get(("L", q)); self.kill(s, q)
                if v and v[0] == "it": s[("L", q)] = ("it", v[1], "u" if op == "++" else "v")
                return [s]
            if op == "=" and q is not None:
                v = self.value(F, s, c[1]); self.kill(s, q)
                if v and v[0] == "it": s[("L", q)] = v
                return [s]
            if op in ("*", "->") and len(c) == 1:
                self.valid(F, s, i, c[0]); return [s]
            if op == "()" or op in ("==", "!=", "<", ">"): return [s]
        impls = self.impls.get(fn) or ([fn] if fn in P.fns else [])
        if not impls:
            pts = nd.get("pt") or ()
            for x, pt in zip(a, pts):
                if pt.endswith("&") and not pt.startswith("const ") or pt.endswith("*") and not pt.startswith("const "):
                    q = self.path(F, x)
                    if q is not None: self.kill(s, q[:-1] if q[-1] == "&" else q)
            if o is not None and p is not None and not nd.get("cst") and k == "CXXMemberCallExpr" and n not in PURE: self.kill(s, p)
            return [s]
        if len(impls) == 1 and impls[0] in self.rel and len(self.stack) < 12 and all(g.id != impls[0] for g in self.stack) and P.fns[impls[0]].cfg:
            return self.enter(F, s, i, P.fns[impls[0]], p, a, arrow)
        self.havoc(F, s, impls, p, a)
        return [s]
    def havoc(self, F, s, impls, p, a):
        for g in impls:
            m = self.mod[g]
            names = {e[1] for e in m if e[0] == "f"}
            for key in list(s):
                q = key[1]
                if key[0] in "CLSD":
                    fl = [x for x in q[1:] if x[0] not in "*[#&"]
                    hit = any(x in names for x in fl) or ("g", q[0]) in m
                    if key[0] == "L" and s.get(key) and s[key][1] is not None: hit = hit or any(x in names for x in s[key][1][1:] if x[0] not in "*[#&")
                    if hit: del s[key]; self.touch(s, q)
            for e in m:
                if e[0] == "p" and e[1] < len(a):
                    q = self.path(F, a[e[1]])
                    if q is not None: self.kill(s, q[:-1] if q[-1] == "&" else q)
                if e[0] == "t" and p is not None: self.kill(s, p)
    def one(self, F, a):
        if len(a) == 1: return True
        ts = [F.n(F.strip(x)).get("t", "") for x in a]
        if len(a) == 2 and "iterator" not in ts[1] and "basic_string" not in ts[1] and "string" not in ts[1]:
            return "iterator" in ts[0] or not ts[1].endswith("*") and F.n(F.strip(a[1]))["k"] != "StringLiteral" and ts[0] == ts[1] or "iterator" in ts[0]
        return len(a) == 2 and "iterator" in ts[0] and "iterator" not in ts[1]
    def pairlike(self, F, i):
        t = F.n(F.strip(i)).get("t", "")
        return not self.iscont(t)
    def enter(self, F, s, i, G, p, a, arrow):
        """analyse callee G in the context of s"""
        mp = []   # caller prefix -> callee prefix
        if p is not None: mp.append((p, ("this",)))
        for x, prm in zip(a, G.params):
            q = self.path(F, x)
            if q is not None and ("&" in prm["t"] or "*" in prm["t"]):
                mp.append((q, (prm["d"],)))
        ent = {}
        ment = self.ment[G.id]
        def far(q): return any(x[0] not in "*[#&" and x not in ment for x in q)
        for (kk, q), v in s.items():
            if kk not in "CSD": continue
            if q[0].startswith("::"): ent[(kk, q)] = v
            for cp, gp in mp:
                if cp[-1] == "&" and q[:len(cp) - 1] == cp[:-1]:
                    if not far(q[len(cp) - 1:]): ent[(kk, gp + ("*",) + q[len(cp) - 1:])] = v
                elif q[:len(cp)] == cp and not far(q[len(cp):]): ent[(kk, gp + q[len(cp):])] = v
        for x, prm in zip(a, G.params):
            if self.iscont(prm["t"]) and self.path(F, x) is None:
                ln = self.arglen(F, s, x)
                if ln is not None: ent[("C", (prm["d"],))] = min(ln, TOP)
            elif self.iscont(prm["t"]) and "&" not in prm["t"]:
                ln = self.arglen(F, s, x)
                if ln is not None: ent[("C", (prm["d"],))] = min(ln, TOP)
            v = self.value(F, s, x)
            if v and v[0] == "c" and "&" not in prm["t"]: ent[("L", (prm["d"],))] = v
        exits = self.run(G, self.fr(ent))
        out = []
        for ex, ret in exits:
            t = dict(s); e = dict(ex)
            for key in list(t):
                q = key[1]
                if key[0] in "CSMD":
                    if q[0].startswith("::") or any(q[:len(cp) - (cp[-1] == "&")] == (cp[:-1] if cp[-1] == "&" else cp) and not far(q[len(cp) - (cp[-1] == "&"):]) for cp, gp in mp): del t[key]
            u = {k: v for k, v in t.items()}
            self.havoc(F, u, [G.id], p, a)
            for key in list(t):
                if key not in u and key[0] in "CLD" : del t[key]
            for (kk, q), v in e.items():
                if kk not in "CSMD": continue
                if q[0].startswith("::"): t[(kk, q)] = v
                for cp, gp in mp:
                    if q[:len(gp)] == gp:
                        if cp[-1] == "&":
                            if len(q) > len(gp) and q[len(gp)] == "*": t[(kk, cp[:-1] + q[len(gp) + 1:])] = v
                        elif not any(prm["d"] == gp[0] and "&" not in prm["t"] and len(q) == len(gp) for prm in G.params): t[(kk, cp + q[len(gp):])] = v
            rk = ("R", (F.id + "@%d" % i,))
            t.pop(rk, None)
            if ret is not None:
                if ret[0] == "c": t[rk] = ret[2]
                elif ret[0] == "len": t[("C", (F.id + "@%d" % i,))] = ret[2]
            out.append(t)
        if not out: return []
        if len(out) > 6: out = [dict(self.join([self.fr(x) for x in out]))]
        return out
    def run(self, G, ent):
        key = (G.id, ent)
        if key in self.memo: return self.memo[key]
        self.memo[key] = []      # recursion is cut off in call()
        self.stack.append(G)
        try: r = self.solve(G, ent)
        finally: self.stack.pop()
        self.memo[key] = r
        return r
    def solve(self, G, ent):
        s0 = dict(ent)
        if G.kind == "ctor":
            for f in self.P.recs.get(G.cls, {}).get("fields", ()):
                if self.iscont(f.get("t", "")) and not G.d.get("copyctor") and "." + f["n"] in self.names: s0[("C", ("this", f["n"]))] = 0
        elif G.cls:
            for (_, n, fld, K) in self.inv.get(G.cls, ()): s0[("I", ("this", n))] = (("this", fld), K)
        inst = {G.entry: {self.fr(s0)}}; work = [G.entry]; exits = set(); cnt = {}
        while work:
            b = work.pop(0)
            sts = inst.get(b, set())
            cnt[b] = cnt.get(b, 0) + 1
            if cnt[b] > 60: sts = {self.join(list(sts))} if sts else sts
            B = G.cfg[b]; live = self.live(G).get(b, ())
            done = self.done(G, b)
            new = [x for x in sts if x not in done]
            for st in new:
                done.add(st)
                outs = [dict(st)]
                for e in B["e"]:
                    nxt = []
                    for o in outs: nxt += self.elem(G, o, e, exits)
                    outs = nxt
                    if len(outs) > CAP: outs = [dict(self.join([self.fr(x) for x in outs]))]
                    if not outs: break
                for o in outs:
                    for succ, o2 in self.branch(G, o, B):
                        if succ is None: continue
                        if succ == G.exit: exits.add((self.fr(self.ret_clean(o2)), o2.get(("RET", ("",)))))
                        lv = self.live(G).get(succ, ())
                        for key in list(o2):
                            r = key[1][0]
                            if r[:1] == "$" and r not in lv and r not in self._prm[G.id] and key[0] in "CSLMD" or key[0] == "R" or key[0] == "V" and "V@" + r.rsplit("@", 1)[1] not in lv: del o2[key]
                        fs = self.fr(o2); cur = inst.setdefault(succ, set())
                        if fs in cur: continue
                        cur.add(fs)
                        if len(cur) > CAP:
                            gr = {}
                            for x in cur: gr.setdefault(frozenset(y for y in x if y[0][0] in "VC"), []).append(x)
                            js = {self.join(v) for v in gr.values()}
                            if len(js) > CAP: js = {self.join(list(js))}
                            cur.clear(); cur |= js
                        if succ not in work: work.append(succ)
        self._done.pop(G.id, None) if hasattr(self, "_done") else None
        return sorted(exits, key=repr)
    def live(self, G):
        if G.id in self._live: return self._live[G.id]
        use = {}; kill = {}
        if not hasattr(self, "_prm"): self._prm = {}
        self._prm[G.id] = {q["d"] for q in G.params if "&" in q["t"] or "*" in q["t"]}
        al = G.alias(); amap = {}
        for d, i in al.items(): amap[d] = {G.n(x)["d"] for x in G.walk(i) if G.k(x) == "DeclRefExpr"}
        ch = True
        while ch:
            ch = False
            for d in amap:
                for x in list(amap[d]):
                    if x in amap and not amap[x] <= amap[d]: amap[d] |= amap[x]; ch = True
        terms = {B["term"] for B in G.cfg.values() if B.get("tk") == "BinaryOperator"}
        for b, B in G.cfg.items():
            u = set(); k = set()
            for e in B["e"]:
                if isinstance(e, dict):
                    continue
                nd = G.nodes[e]
                if nd["k"] == "DeclRefExpr" and nd["d"][:1] == "$":
                    for d in {nd["d"]} | amap.get(nd["d"], set()):
                        if d not in k: u.add(d)
                if nd["k"] == "DeclStmt":
                    for d in nd["decls"]: k.add(d["d"])
            if B.get("lc") is not None:
                for x in G.walk(B["lc"]):
                    if G.k(x) == "DeclRefExpr" and G.n(x)["d"] not in k: u.add(G.n(x)["d"])
            for e in list(B["e"]) + ([B["lc"]] if B.get("lc") is not None else []):
                if isinstance(e, dict): e = e.get("init", -1)
                if e is None or e < 0 or G.k(e) not in ("DeclStmt", "ReturnStmt", "BinaryOperator", "ExprWithCleanups", "CallExpr", "CXXMemberCallExpr", "CXXOperatorCallExpr", "UnaryOperator", "ParenExpr", "ImplicitCastExpr") : continue
                for x in G.walk(e):
                    if x in terms: u.add("V@%d" % x)
            if B.get("tk") == "BinaryOperator": k.add("V@%d" % B["term"])
            use[b] = u; kill[b] = k
        L = {b: set(use[b]) for b in G.cfg}; ch = True
        while ch:
            ch = False
            for b, B in G.cfg.items():
                n = len(L[b])
                for x in B["s"]:
                    if x is not None: L[b] |= {y for y in L[x] if y not in kill[b] or y[0] == "V" and y in use[b]}
                if len(L[b]) != n: ch = True
        # variables whose size or iterator another variable holds stay live with it
        self._live[G.id] = L
        return L
    def done(self, G, b):
        if not hasattr(self, "_done"): self._done = {}
        return self._done.setdefault(G.id, {}).setdefault(b, set())
    def ret_clean(self, o): return {k: v for k, v in o.items() if k[0] in "CSMD" and (k[1][0] == "this" or k[1][0].startswith("::") or k[1][0].startswith("$"))}
    def branch(self, G, s, B):
        succ = B["s"]
        if len(succ) < 2 or B.get("lc") is None or B.get("tk") in ("SwitchStmt", "CXXTryStmt"):
            return [(x, dict(s)) for x in succ]
        v = self.value(G, s, B["lc"]); out = []
        for x, truth in ((succ[0], True), (succ[1], False)):
            t = dict(s)
            if not self.assume(G, t, v, truth): continue
            self.scalar(G, t, B["lc"], truth)
            if not truth and self.table(G, B["lc"]):
                rg = self.rangesets(G)
                for key in list(t):
                    if key[0] == "C" and t[key] == 0 and key[1] in rg: del t[key]; t[("D", key[1])] = 1
            if B.get("tk") == "BinaryOperator" and B.get("term") is not None:
                nd = G.n(B["term"]); key = ("V", (G.id + "@%d" % B["term"],))
                t.pop(key, None)
                if nd.get("op") == "||" and truth: t[key] = 1
                if nd.get("op") == "&&" and not truth: t[key] = 0
            out.append((x, t))
        return out
    def rangesets(self, G):
        if not hasattr(self, "_rg"): self._rg = {}
        if G.id not in self._rg:
            self._rg[G.id] = {self.path(G, i) for i, nd in enumerate(G.nodes) if nd["k"] in ("DeclRefExpr", "MemberExpr", "CXXThisExpr") and "Ranges<" in nd.get("t", "")}
        return self._rg[G.id]
    def table(self, G, c):
        """the end test of a loop over a table of constants"""
        return any(G.k(x) == "ArraySubscriptExpr" and G.n(G.strip(G.c(x)[0])).get("t", "").startswith("const int *") for x in G.walk(c))
    def scalar(self, G, s, c, truth):
        """a comparison of a scalar field with a constant, under an invariant of its class"""
        c = G.strip(c); nd = G.n(c)
        while nd["k"] == "UnaryOperator" and nd["op"] == "!": c = G.strip(nd["c"][0]); nd = G.n(c); truth = not truth
        if nd["k"] != "BinaryOperator" or nd["op"] not in ("<", ">", "<=", ">=", "==", "!="): return
        l, r = nd["c"]; op = nd["op"]; kv = G.n(G.strip(r)).get("cv", G.cv(r)); p = self.path(G, l)
        if kv is None: kv = G.n(G.strip(l)).get("cv", G.cv(l)); p = self.path(G, r); op = {"<": ">", ">": "<", "<=": ">=", ">=": "<="}.get(op, op)
        if p is None or kv is None: return
        if not truth: op = {"<": ">=", ">": "<=", "<=": ">", ">=": "<", "==": "!=", "!=": "=="}[op]
        lt = kv if op == "<" else kv + 1 if op == "<=" else kv + 1 if op == "==" else None
        iv = s.get(("I", p))
        if iv and (lt is not None and lt <= iv[1] or op == "!=" and kv == iv[1]):
            if not s.get(("C", iv[0])): s[("C", iv[0])] = 1
    def elem(self, G, s, e, exits):
        if isinstance(e, dict):
            if "field" in e:
                n = e["field"].split("::")[-1]; p = ("this", n)
                i = e.get("init")
                if i is not None and i >= 0: self.assign(G, s, p, i, None)
            return [s]
        nd = G.nodes[e]; k = nd["k"]
        if k == "DeclStmt":
            for d in nd["decls"]:
                if d["t"].endswith("&") and d["i"] >= 0 and self.path(G, d["i"]) is not None: continue
                self.assign(G, s, (d["d"],), d["i"], d["t"])
            return [s]
        if k == "BinaryOperator" and nd["op"] == "=":
            p = self.path(G, nd["c"][0])
            if p is not None: self.assign(G, s, p, nd["c"][1], None)
            return [s]
        if k == "CompoundAssignOperator" or k == "UnaryOperator" and nd["op"] in ("++", "--"):
            p = self.path(G, nd["c"][0])
            if p is not None:
                v = s.get(("L", p)); self.kill(s, p)
                if v and v[0] == "it": s[("L", p)] = ("it", v[1], "u")
            return [s]
        if k == "BinaryOperator" and nd["op"] == "-":
            l = G.n(G.strip(nd["c"][0])); c = G.n(G.strip(nd["c"][1])).get("cv")
            if l["k"] == "CXXMemberCallExpr" and l.get("n") in SIZES and c is not None and c > 0 and not self.clamped(G, e):
                v = self.value(G, s, nd["c"][0])
                if v and v[0] == "size": self.need(G, s, e, v[1], c, "size() - %d" % c)
            return [s]
        if k == "UnaryOperator" and nd["op"] == "*":
            self.valid(G, s, e, nd["c"][0]); return [s]
        if k in ("CallExpr", "CXXMemberCallExpr", "CXXOperatorCallExpr"):
            if nd.get("noret") or nd.get("fn") in self.noret: return []
            return self.call(G, s, e)
        if k == "CXXThrowExpr": return []
        if k == "ReturnStmt" and nd.get("e", -1) is not None and nd.get("e", -1) >= 0:
            v = self.value(G, s, nd["e"])
            if G.d.get("ret") == "bool" and v is not None:
                out = []
                for truth in (True, False):
                    t = dict(s)
                    if self.assume(G, t, v, truth): t[("RET", ("",))] = ("c", None, int(truth)); out.append(t)
                return out
            if v is not None and v[0] == "c": s[("RET", ("",))] = v
            elif self.iscont(G.d.get("ret")):
                ln = self.arglen(G, s, nd["e"])
                if ln is not None: s[("RET", ("",))] = ("len", None, ln)
            return [s]
        return [s]
    def clamped(self, G, e):
        """the count argument of substr, which is limited to the text"""
        x = e; p = G.par.get(x)
        while p is not None and G.k(p) in STRIP: x = p; p = G.par.get(x)
        return p is not None and G.k(p) == "CXXMemberCallExpr" and G.n(p).get("n") == "substr" and len(G.c(p)) > 2 and G.c(p)[2] == x
    def assign(self, G, s, p, i, t):
        if i is None or i < 0:
            self.kill(s, p)
            if t and self.iscont(t) and self.nm(p) in self.names: s[("C", p)] = 0
            return
        j = G.strip(i); nd = G.nodes[j]
        v = self.value(G, s, i); ln = None
        isc = self.iscont(t) if t else self.iscont(nd.get("t", ""))
        if isc:
            rk = ("C", (G.id + "@%d" % j,))
            ln = s[rk] if rk in s else self.arglen(G, s, i)
        self.kill(s, p)
        if isc:
            if ln is not None and self.nm(p) in self.names: s[("C", p)] = min(ln, TOP)
            elif self.nm(p) in self.names and self.data(G, i): s[("D", p)] = 1
        elif v is not None:
            if v[0] == "c":
                if p[-1] in self.invn: s[("S", p)] = v[2]
                if (t or nd.get("t", "")) in ("bool", "const bool"): s[("L", p)] = v
            else: s[("L", p)] = v

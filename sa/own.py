"""Typestate of owned pointers: a path-sensitive abstract interpretation of the functions that allocate, release, store or copy them.
What a pointer field, flag, container of pointers or local pointer holds is a symbolic object (with its state: live or released), nothing,
or something that belongs to somebody else. Methods called on the same object are followed; a call that may throw also leaves that way."""
from core import *
from lim import WID, plain

ACQ = {"pcre2_compile_8", "pcre2_code_copy_8", "pcre2_code_copy_with_tables_8", "pcre2_match_data_create_8", "pcre2_match_data_create_from_pattern_8", "pcre2_match_context_create_8", "pcre2_jit_stack_create_8", "malloc", "calloc", "strdup"}
REL = {"pcre2_code_free_8", "pcre2_match_data_free_8", "pcre2_match_context_free_8", "pcre2_jit_stack_free_8", "free"}
ELEM = re.compile(r"^std::(?:__cxx11::)?(?:list|vector|stack|deque|set)<(?:const )?[\w:<>, ]+? \*[,>]")

class St:
    __slots__ = ("e", "t")
    def __init__(self, e=None, t=None): self.e = e if e is not None else {}; self.t = t if t is not None else {}
    def copy(self): return St(dict(self.e), dict(self.t))
    def key(self): return (frozenset(self.e.items()), frozenset(self.t.items()))

class Own:
    """ptr: owning pointer fields -> flag field or None; cont: owning containers"""
    def __init__(self, P, fields, conts, report, aux=(), throws=None):
        self.P = P; self.F = fields; self.C = conts; self.flags = {g for g in fields.values() if g} | set(aux); self.aux = set(aux); self.helpers = set(); self.report = report; self.depth = 0; self.memo = {}
        self.sites = set(); self.top = None
        self.relev = self.relevant(); self.throws = throws if throws is not None else self.throwing()
    # ---- which functions matter
    def touches(self, f):
        for i, nd in enumerate(f.nodes):
            k = nd["k"]
            if k == "BinaryOperator" and nd["op"] == "=":
                p = f.n(f.strip(nd["c"][0]))
                if p["k"] == "MemberExpr" and (p["d"] in self.F or p["d"] in self.flags and p["d"] not in self.aux): return True
            elif k == "CXXDeleteExpr" or k == "CallExpr" and nd.get("n") in REL | {"realloc", "posix_memalign"}:
                for j in f.walk(nd["arg"] if k == "CXXDeleteExpr" else i):
                    if f.k(j) == "MemberExpr" and f.n(j)["d"] in self.F: return True
                if self.C and k == "CXXDeleteExpr" and any(self.C[c] == f.cls for c in self.C): return True
            elif k == "CXXMemberCallExpr" and nd.get("c"):
                me = f.n(f.strip(nd["c"][0]))
                if me["k"] == "MemberExpr" and me.get("c"):
                    b = f.n(f.strip(me["c"][0]))
                    if b["k"] == "MemberExpr" and b["d"] in self.C and me["n"] in ("push", "push_back", "push_front", "clear", "pop", "pop_back", "pop_front", "swap"): return True
        return any(i.get("field") in self.F or i.get("field") in self.flags for i in f.d.get("inits", ()))
    def relevant(self):
        rel = {f.id for f in self.P.fns.values() if f.cls and f.cfg is not None and self.touches(f)}; self.direct = set(rel)
        ch = True
        callers = {}
        for f in self.P.fns.values():
            if f.cfg is None: continue
            for i, nd in enumerate(f.nodes):
                if nd.get("fn") and (f.cls or nd["k"] in ("CXXConstructExpr",)): callers.setdefault(nd["fn"], set()).add(f.id)
        self.callers = callers
        # short functions that do little more than call such a one are followed too
        self.near = {y for x in rel for y in callers.get(x, ()) if self.P.fns[y].cls == self.P.fns[x].cls and len(self.P.fns[y].nodes) <= 120 and self.P.fns[x].kind is None}
        work = list(rel)
        while work:
            x = work.pop()
            for y in callers.get(x, ()):
                g = self.P.fns[y]
                if y not in rel and g.cls and len(g.nodes) < 1500: rel.add(y); work.append(y)
        return rel
    def throwing(self):
        th = set()
        for f in self.P.fns.values():
            if any(nd["k"] == "CXXThrowExpr" and not any("bad_alloc" in (f.n(j).get("t") or "") for j in f.walk(i)) for i, nd in enumerate(f.nodes)): th.add(f.id)
        callers = {}
        for f in self.P.fns.values():
            if any(nd["k"] == "CXXTryStmt" for nd in f.nodes): continue
            for nd in f.nodes:
                if nd.get("fn"): callers.setdefault(nd["fn"], set()).add(f.id)
        work = list(th)
        while work:
            for y in callers.get(work.pop(), ()):
                if y not in th: th.add(y); work.append(y)
        return th
    # ---- values
    def obj(self, f, fr, i):
        """the object an expression denotes"""
        i = f.strip(i); nd = f.n(i)
        if nd["k"] == "CXXThisExpr": return fr["obj"]
        if nd["k"] == "UnaryOperator" and nd["op"] == "*": return self.obj(f, fr, nd["c"][0])
        if nd["k"] == "DeclRefExpr" and nd.get("dk") == "parm": return fr["map"].get(nd["d"])
        return None
    def fkey(self, f, fr, i):
        nd = f.n(f.strip(i))
        if nd["k"] != "MemberExpr" or not nd.get("c"): return None
        if nd["d"] in self.F or nd["d"] in self.flags or nd["d"] in self.C:
            o = self.obj(f, fr, nd["c"][0])
            if o is not None: return (o, nd["d"])
        return None
    def val(self, f, fr, st, i):
        while True:
            nd = f.n(i)
            k = (fr["id"], i)
            if k in st.e: return st.e[k]
            if isinstance(nd.get("cv"), int) and nd["cv"] == 0: return "N"
            if nd["k"] in ("CXXNullPtrLiteralExpr", "GNUNullExpr"): return "N"
            if nd.get("ck") == "NullToPointer": return "N"
            if nd["k"] in STRIP and nd.get("c"): i = nd["c"][0]; continue
            break
        if nd["k"] == "MemberExpr":
            q = self.fkey(f, fr, i)
            return st.e.get(q, "B") if q else "B"
        if nd["k"] == "DeclRefExpr": return st.e.get((fr["id"], nd.get("d")), "B")
        if nd["k"] == "BinaryOperator" and nd["op"] == "=": return self.val(f, fr, st, nd["c"][1])
        if nd["k"] == "BinaryOperator" and nd["op"] == ",": return self.val(f, fr, st, nd["c"][1])
        if nd["k"] == "ConditionalOperator":
            a = st.e.get((fr["id"], ("arm", i)))
            return self.val(f, fr, st, a) if a is not None else "B"
        return "B"
    # ---- conditions
    def split(self, f, fr, st, c):
        i = f.strip(c); nd = f.n(i); k = nd["k"]
        if k == "UnaryOperator" and nd["op"] == "!": return [(not t, s) for t, s in self.split(f, fr, st, nd["c"][0])]
        both = [(True, st.copy()), (False, st.copy())]
        if k == "DeclRefExpr" and st.e.get((fr["id"], nd.get("d"))) in ("T", "F"): return [(st.e[(fr["id"], nd["d"])] == "T", st)]
        if k == "MemberExpr":
            q = self.fkey(f, fr, i)
            if q and q[1] in self.flags:
                v = st.e.get(q)
                if v in ("T", "F"): return [(v == "T", st)]
                both[0][1].e[q] = "T"; both[1][1].e[q] = "F"
                return both
        if k == "BinaryOperator" and nd["op"] in ("==", "!=", ">", "<", ">=", "<="):
            a, b = nd["c"]; op = nd["op"]
            if op in ("==", "!=") and f.n(b).get("cv") == 0:
                v = st.e.get((fr["id"], f.strip(a)))
                if v in ("Z", "NZ"): return [((v == "Z") == (op == "=="), st)]
            # the number of elements, or a local that counts them down
            for x, o, p in ((a, b, op), (b, a, {"<": ">", ">": "<", "<=": ">=", ">=": "<="}.get(op, op))):
                q = self.sized(f, fr, st, x); cv = f.n(o).get("cv")
                if q is not None and isinstance(cv, int) and st.e.get(q) in ("E", "O"):
                    t = {("!=", 0): False, (">", 0): False, (">=", 1): False, ("==", 0): True, ("<=", 0): True, ("<", 1): True}.get((p, cv))
                    if t is not None: return [(t == (st.e[q] == "E"), st)]
            qa, qb = self.fkey(f, fr, a), self.fkey(f, fr, b)
            for q, o, p in ((qa, b, op), (qb, a, {"<": ">", ">": "<", "<=": ">=", ">=": "<="}.get(op, op))):
                if q and q[1] in self.flags and isinstance(f.n(o).get("cv"), int):
                    v = st.e.get(q); cv = f.n(o)["cv"]
                    t = {("!=", 0): True, (">", 0): True, (">=", 1): True, ("==", 0): False, ("<=", 0): False, ("<", 1): False, ("==", 1): True, ("!=", 1): False}.get((p, cv))
                    if t is None or v not in ("T", "F"): return both
                    return [(t if v == "T" else not t, st)]
            if op in ("==", "!="):
                # the same object?
                oa, ob = self.address(f, fr, a), self.address(f, fr, b)
                if oa and ob: return [((oa == ob) == (op == "=="), st)]
                ty = f.n(a).get("t") or ""
                if ty.rstrip().endswith("*") or (f.n(b).get("t") or "").rstrip().endswith("*"):
                    x, y = self.val(f, fr, st, a), self.val(f, fr, st, b)
                    if x == y and x != "B": return [(op == "==", st)]
                    if any(isinstance(v, tuple) and v[0] == "n" for v in (x, y)) and st.t.get(x if isinstance(x, tuple) else y) == "L": return [(op == "!=", st)]
                    if "BR" in (x, y):
                        tok = y if x == "BR" else x; eq = st.copy()
                        if isinstance(tok, tuple):
                            if eq.t.get(tok) == "L": eq.t[tok] = "R"
                            return [(op == "==", eq), (op == "!=", st)]
                        return both
                    if y == "N" and x == "B" or x == "N" and y == "B":
                        o = f.n(f.strip(a if y == "N" else b))
                        if o["k"] == "DeclRefExpr":
                            eq = st.copy(); eq.e[(fr["id"], o.get("d"))] = "N"
                            return [(op == "==", eq), (op != "==", st)]
                    if "B" in (x, y) and any(isinstance(v, tuple) and v[0] == "i" for v in (x, y)):
                        o = f.n(f.strip(a if x == "B" else b)); tok = y if x == "B" else x
                        if o["k"] == "DeclRefExpr" and o.get("dk") in ("var", "parm"):  # it is what the field holds
                            eq = st.copy(); eq.e[(fr["id"], o["d"])] = tok
                            return [(op == "==", eq), (op != "==", st)]
                    if "B" in (x, y) or "X" in (x, y):
                        if "N" in (x, y):  # somebody else's pointer is taken not to be null where it is stored in a field
                            if self.isfield(f, fr, a) or self.isfield(f, fr, b): return [(op == "!=", st)]
                        return both
                    return [(op == "!=", st)]
            return both
        if k in ("CXXMemberCallExpr",):
            me = f.n(f.strip(nd["c"][0]))
            q = self.fkey(f, fr, me["c"][0]) if me.get("c") else None
            if q and q[1] in self.C and me["n"] == "empty":
                v = st.e.get(q)
                return [(True, st)] if v == "E" else [(False, st)]
            return both
        if (nd.get("t") or "").rstrip().endswith("*") or k in ("DeclRefExpr",):
            v = self.val(f, fr, st, i)
            if v == "N": return [(False, st)]
            if isinstance(v, tuple): return [(True, st)]
            if v == "B" and self.isfield(f, fr, i): return [(True, st)]
            if v == "B" and nd["k"] == "DeclRefExpr" and (nd.get("t") or "").rstrip().endswith("*"):
                both[1][1].e[(fr["id"], nd.get("d"))] = "N"
                return both
        if isinstance(nd.get("cv"), int): return [(bool(nd["cv"]), st)]
        if k == "CallExpr":
            t = self.always(f, nd)
            if t is not None: return [(t, st)]
        v = st.e.get((fr["id"], i))
        if v in ("Z", "NZ"): return [(v == "NZ", st)]
        return both
    def sized(self, f, fr, st, i):
        """container whose size() this is, or a local that was set to its size and is only counted down"""
        nd = f.n(f.strip(i))
        if nd["k"] == "CXXMemberCallExpr" and nd.get("n") == "size" and len(nd["c"]) == 1:
            me = f.n(f.strip(nd["c"][0])); q = self.fkey(f, fr, me["c"][0]) if me.get("c") else None
            return q if q and q[1] in self.C else None
        if nd["k"] != "DeclRefExpr" or nd.get("dk") != "var": return None
        d = nd["d"]; init = None; n = 0
        for x in f.nodes:
            if x["k"] == "DeclStmt":
                for y in x["decls"]:
                    if y["d"] == d: init = y.get("i", -1)
            elif x["k"] in ("BinaryOperator", "CompoundAssignOperator") and x["op"].endswith("=") and x["op"] not in ("==", "!=", "<=", ">=") and f.n(f.strip(x["c"][0])).get("d") == d: return None
            elif x["k"] == "UnaryOperator" and x["op"] in ("++", "--", "&") and f.n(f.strip(x["c"][0])).get("d") == d:
                if x["op"] != "--": return None
                n += 1
        pops = sum(1 for x in f.nodes if x["k"] == "CXXMemberCallExpr" and x.get("n") in ("pop", "pop_back", "pop_front"))
        if init is None or init < 0 or n != 1 or pops != 1 or f.n(f.strip(init))["k"] == "DeclRefExpr": return None
        return self.sized(f, fr, st, init)
    def always(self, f, nd):
        """a predicate `return parameter <= constant` of an argument whose type holds no greater value"""
        g = self.P.fns.get(nd.get("fn")); c = nd.get("c", ())
        if g is None or len(g.params) != 1 or len(c) != 2: return None
        R = [m for m in g.nodes if m["k"] == "ReturnStmt"]
        if len(R) != 1 or not R[0].get("c"): return None
        m = g.n(g.strip(R[0]["c"][0]))
        if m["k"] != "BinaryOperator" or m["op"] != "<=": return None
        a, b = m["c"]; x = g.n(g.strip(a)); b = g.n(b).get("cv", g.n(g.strip(b)).get("cv"))
        if x["k"] != "DeclRefExpr" or x.get("d") != g.params[0]["d"] or not isinstance(b, int): return None
        i = c[1]; mx = None
        while True:
            w = WID.get(plain(f.n(i).get("t") or ""))
            if w: mx = min(mx, 2 ** w - 1) if mx is not None else 2 ** w - 1
            if f.n(i)["k"] in STRIP | {"CXXStaticCastExpr", "CStyleCastExpr", "CXXFunctionalCastExpr"} and f.n(i).get("c"): i = f.n(i)["c"][0]
            else: break
        return True if mx is not None and mx <= b else None
    def isfield(self, f, fr, i): return self.fkey(f, fr, i) is not None
    def address(self, f, fr, i):
        i = f.strip(i); nd = f.n(i)
        if nd["k"] == "CXXThisExpr": return fr["obj"]
        if nd["k"] == "UnaryOperator" and nd["op"] == "&": return self.obj(f, fr, nd["c"][0])
        return None
    # ---- objects
    def holders(self, st, tok, but=()):
        return [k for k, v in st.e.items() if v == tok and k not in but and not isinstance(k[1], int) and not (isinstance(k[1], tuple) and k[1][0] == "arm")]
    def set(self, f, i, st, q, v, what):
        """store v in the field or local q"""
        old = st.e.get(q)
        st.e[q] = v
        if isinstance(old, tuple) and st.t.get(old) == "L" and not self.holders(st, old):
            if q[1] in self.F or isinstance(q[1], str): self.bad("LEAK", f, i, "%s is overwritten while it holds memory that is not released" % what); st.t[old] = "X"
    def release(self, f, fr, st, i, arg):
        v = self.val(f, fr, st, arg); what = f.text(f.strip(arg)); q = self.fkey(f, fr, arg)
        self.sites.add((f.id, i))
        if isinstance(v, tuple):
            if st.t.get(v) == "R": self.bad("TWICE", f, i, "%s may be released a second time" % what)
            else: st.t[v] = "R"
        elif v == "B" and q is None:
            n = f.n(f.strip(arg))
            if n["k"] == "DeclRefExpr": st.e[(fr["id"], n["d"])] = "BR"
        elif v == "B" and q is not None and not fr.get("loose"):
            if q[1] in self.F: self.bad("FOREIGN", f, i, "%s may belong to someone else and is released" % what)
        elif v == "B" and q is not None: self.bad("FOREIGN", f, i, "%s may belong to someone else and is released" % what)
        elif v == "U": self.bad("FOREIGN", f, i, "%s is released and was not initialised" % what)
    def bad(self, rule, f, i, what): self.report(rule, f, i, what)
    # ---- running
    def run(self, f, fr, st):
        """-> ([(state, value)], [(state at a throw, node)])"""
        init = {}
        for b in f.cfg.values():
            for e in b["e"]:
                if isinstance(e, dict) and ("base" in e or "deleg" in e): init[f.strip(e["init"])] = e
        arms = {}
        for i, nd in enumerate(f.nodes):
            if nd["k"] == "ConditionalOperator":
                for a in nd["c"][1:3]: arms[a] = i; arms[f.strip(a)] = i
        outs = {}; thr = {}; seen = set(); work = [(f.entry, st)]; steps = 0
        while work:
            b, s = work.pop()
            k = (b, s.key())
            if k in seen: continue
            seen.add(k); steps += 1
            if steps > 6000: self.gave_up = f; break
            if b == f.exit:
                v = s.e.pop((fr["id"], "ret"), None)
                for x in [x for x in s.e if x[0] == fr["id"]]: del s.e[x]
                outs[(s.key(), v)] = (s, v); continue
            B = f.cfg[b]; states = [s]
            for e in B["e"]:
                nxt = []
                for s in states:
                    r, t = self.elem(f, fr, s, e, init, arms)
                    nxt += r
                    for x, n in t:
                        H, through = self.handlers(f, n)
                        for h in H: work.append((h, x.copy()))
                        if through: thr[(x.key(), n)] = (x, n)
                states = []; ks = set()
                for s in nxt:
                    kk = s.key()
                    if kk not in ks: ks.add(kk); states.append(s)
                if not states: break
            if B.get("noret"): continue
            succ = B["s"]; two = len(succ) == 2 and B.get("tk") != "SwitchStmt" and "cond" in B
            for s in states:
                if not two:
                    for x in succ:
                        if x is not None: work.append((x, s.copy()))
                    continue
                c = B.get("lc", B["cond"])
                for t, s2 in self.split(f, fr, s, c):
                    x = succ[0] if t else succ[1]
                    if x is not None: work.append((x, s2.copy()))
        T = []
        for x, n in thr.values():
            for y in [y for y in x.e if y[0] == fr["id"]]: pass
            T.append((x, n))
        return list(outs.values()), T
    def handlers(self, f, n):
        """blocks of the handlers that may take what is thrown at n, and whether it may also leave the function"""
        H = []; p = f.par.get(n); q = n
        while p is not None and p >= 0:
            nd = f.n(p)
            if nd["k"] == "CXXTryStmt" and nd["c"] and nd["c"][0] == q:
                for h in nd["c"][1:]:
                    H += [b for b, B in f.cfg.items() if B.get("label") == h]
                    if not f.n(h).get("ct"): return H, False
            q = p; p = f.par.get(p)
        return H, True
    def elem(self, f, fr, st, e, init, arms):
        if isinstance(e, dict):
            q = e.get("field")
            if q in self.F or q in self.flags:
                v = e["init"]; nd = f.n(f.strip(v))
                if nd["k"] == "CXXDefaultInitExpr" or nd["k"] == "ImplicitValueInitExpr": st.e[(fr["obj"], q)] = "N" if q in self.F else "F"; return [st], []
                return self.assign(f, fr, st, v, (fr["obj"], q), v, q.split("::")[-1]), []
            elif q in self.C: st.e[(fr["obj"], q)] = "E"
            elif q:
                v = self.val(f, fr, st, e["init"])
                if isinstance(v, tuple): self.escape(st, v)
            return [st], []
        nd = f.n(e); k = nd["k"]; c = nd.get("c", ())
        if e in arms: st.e[(fr["id"], ("arm", arms[e]))] = e
        if k == "DeclStmt":
            out = [st]
            for d in nd["decls"]:
                if d["i"] < 0: continue
                it = f.n(f.strip(d["i"]))
                r = self.iterates(f, fr, d["d"], d["i"])
                if r: self.drain(f, st, r, e)
                if d["t"].rstrip().endswith("*"): self.set(f, e, st, (fr["id"], d["d"]), self.val(f, fr, st, d["i"]), d["n"] if "n" in d else "a local")
                elif d["t"].replace("const ", "").strip() == "bool": out = self.boolean(f, fr, st, d["d"], d["i"])
            return out, []
        if k == "BinaryOperator" and nd["op"] == "=":
            l = f.strip(c[0]); q = self.fkey(f, fr, l); ln = f.n(l)
            if q: return self.assign(f, fr, st, c[1], q, e, f.text(l)), []
            if ln["k"] == "DeclRefExpr" and ln.get("dk") in ("var", "parm"):
                if (ln.get("t") or "").rstrip().endswith("*"): self.set(f, e, st, (fr["id"], ln["d"]), self.val(f, fr, st, c[1]), ln["n"])
                elif (ln.get("t") or "").strip() == "bool": return self.boolean(f, fr, st, ln["d"], c[1]), []
            elif (ln.get("t") or "").rstrip().endswith("*"):
                v = self.val(f, fr, st, c[1])  # stored somewhere else
                if isinstance(v, tuple) and not self.fieldheld(st, v): self.escape(st, v)
            return [st], []
        if k == "CompoundAssignOperator" or k == "UnaryOperator" and nd["op"] in ("++", "--"):
            q = self.fkey(f, fr, c[0])
            if q and q[1] in self.flags: st.e[q] = "T" if nd["op"] in ("+=", "++") else "T"
            return [st], []
        if k == "CXXNewExpr":
            t = st.copy(); tok = ("n", f.id, e)
            if not self.ctorthrows(f, nd): t.e[("#", "oom")] = "T"
            t = [(t, e)]
            self.older(f, st, tok, e)
            if nd.get("size") is not None:
                q = self.fkey(f, fr, nd["size"])
                if q and q[1] in self.flags: st.e[q] = "T"
            st.t[tok] = "L"; st.e[(fr["id"], e)] = tok; self.sites.add((f.id, e))
            return [st], t
        if k == "CXXDeleteExpr": self.release(f, fr, st, e, nd["arg"]); return [st], []
        if k == "CXXThrowExpr":
            if any("bad_alloc" in (f.n(j).get("t") or "") for j in f.walk(e)): st.e[("#", "oom")] = "T"
            return [], [(st, e)]
        if k == "ReturnStmt":
            if nd["e"] >= 0:
                v = self.val(f, fr, st, nd["e"])
                if isinstance(v, tuple): st.e[(fr["id"], "ret")] = v
            return [st], []
        if k in ("CallExpr", "CXXMemberCallExpr", "CXXOperatorCallExpr", "CXXConstructExpr", "CXXTemporaryObjectExpr"): return self.call(f, fr, st, e, init)
        if k == "UnaryOperator" and nd["op"] == "*" or k == "ArraySubscriptExpr": self.use(f, fr, st, e, c[0])
        elif k == "MemberExpr" and nd.get("arrow") and c: self.use(f, fr, st, e, c[0])
        return [st], []
    def boolean(self, f, fr, st, d, init):
        """a local that holds what a flag was"""
        i = f.strip(init)
        while f.k(i) == "UnaryOperator" and f.n(i)["op"] == "!": i = f.strip(f.n(i)["c"][0])
        q = self.fkey(f, fr, i); key = (fr["id"], d)
        if not (q and q[1] in self.flags or f.k(i) == "DeclRefExpr" and st.e.get((fr["id"], f.n(i).get("d"))) in ("T", "F")):
            st.e.pop(key, None); return [st]
        out = []
        for t, s in self.split(f, fr, st, init):
            s = s.copy(); s.e[key] = "T" if t else "F"; out.append(s)
        return out
    def older(self, f, st, tok, e):
        """allocated again in a loop: what was allocated before gets another name"""
        if tok not in st.t: return
        old = tok + (1,)
        if st.t[tok] == "L" and not self.holders(st, tok): self.bad("LEAK", f, e, "what was allocated here before is lost")
        if old in st.t and st.t[old] == "L" and not self.holders(st, old): self.bad("LEAK", f, e, "what was allocated here before is lost")
        for x, v in list(st.e.items()):
            if v == tok: st.e[x] = old
        st.t[old] = st.t.pop(tok)
    def ctorthrows(self, f, nd):
        t = nd.get("at") or ""
        if "basic_regex" in t: return True
        for j in nd.get("c", ()):
            if j >= 0:
                x = f.n(f.strip(j))
                if x["k"] in ("CXXConstructExpr", "CXXTemporaryObjectExpr") and x.get("fn") in self.throws: return True
        return False
    def use(self, f, fr, st, i, j):
        v = self.val(f, fr, st, j)
        if isinstance(v, tuple) and st.t.get(v) == "R": self.bad("DANGLING", f, i, "%s is used after its memory was released" % f.text(f.strip(j)))
    def fieldheld(self, st, tok): return [k for k in self.holders(st, tok) if k[1] in self.F]
    def escape(self, st, v):
        if st.t.get(v) == "L": st.t[v] = "X"
    def assign(self, f, fr, st, rhs, q, i, what):
        if q[1] in self.flags:
            r = f.n(f.strip(rhs)); out = []
            if isinstance(r.get("cv"), int): st.e[q] = "T" if r["cv"] else "F"; return [st]
            if isinstance(f.n(rhs).get("cv"), int): st.e[q] = "T" if f.n(rhs)["cv"] else "F"; return [st]
            o = self.fkey(f, fr, rhs)
            if o and o[1] == q[1] and st.e.get(o) in ("T", "F"): st.e[q] = st.e[o]; return [st]
            if "bool" not in (f.n(rhs).get("t") or ""): st.e[q] = "T"; return [st]
            for t, s in self.split(f, fr, st, rhs):
                s = s.copy(); s.e[q] = "T" if t else "F"; out.append(s)
            return out
        if q[1] in self.F:
            self.sites.add((f.id, i))
            v = self.val(f, fr, st, rhs); old = st.e.get(q)
            # a function that is given another object hands over the one it had
            if v == "B" and self.F[q[1]] is None and f.n(f.strip(rhs)).get("dk") == "parm" and isinstance(old, tuple) and old[0] == "i" and not self.holders(st, old, (q,)): self.escape(st, old)
            self.set(f, i, st, q, v, what)
        return [st]
    def iterates(self, f, fr, d, init):
        """it = this->container.begin(), where the loop releases *it: the container"""
        nd = f.n(f.strip(init))
        if nd["k"] in ("CXXConstructExpr",) and nd.get("c"): nd = f.n(f.strip(nd["c"][0]))
        if nd["k"] != "CXXMemberCallExpr": return None
        me = f.n(f.strip(nd["c"][0]))
        if me["k"] != "MemberExpr" or me["n"] not in ("begin", "cbegin") or not me.get("c"): return None
        q = self.fkey(f, fr, me["c"][0])
        if not q or q[1] not in self.C: return None
        for x in f.nodes:
            if x["k"] == "CXXDeleteExpr" and any(f.n(j)["k"] == "DeclRefExpr" and f.n(j).get("d") == d for j in f.walk(x["arg"])): return q
        return None
    def drain(self, f, st, q, i):
        if st.e.get(q) == "D": self.bad("TWICE", f, i, "the elements of %s may be released a second time" % q[1].split("::")[-1])
        elif st.e.get(q) == "O": st.e[q] = "D"
        self.sites.add((f.id, i))
    def contcall(self, f, fr, st, i, q, n, args):
        nm = q[1].split("::")[-1]; v = st.e.get(q)
        el = ("el", q)
        if n in ("push", "push_back", "push_front"):
            self.sites.add((f.id, i))
            x = self.val(f, fr, st, args[0])
            if isinstance(x, tuple): st.e[q] = "O"; st.t[x] = "K"; st.e[(q[0], ("in", x))] = q
            elif x == "B": st.e[q] = "O"
            elif st.e.get(q) != "O": st.e[q] = "O" if x != "N" else st.e.get(q)
            return [st]
        if n in ("top", "back", "front"):
            st.e[(fr["id"], i)] = el; st.t.setdefault(el, "K"); return [st]
        if n in ("pop", "pop_back", "pop_front"):
            self.sites.add((f.id, i))
            t = st.t.get(el)
            if t is None or t == "K" and not [k for k in self.holders(st, el) if k[0] != fr["id"] or True]: self.bad("LEAK", f, i, "an element of %s is removed and not released" % nm)
            new = ("popped", q)
            for k, x in list(st.e.items()):
                if x == new: st.e[k] = "B"
                if x == el: st.e[k] = new
            st.t.pop(el, None)
            if t: st.t[new] = "L" if t == "K" else t
            a = st.copy(); a.e[q] = "E"; st.e[q] = "O"
            return [a, st]
        if n == "clear":
            self.sites.add((f.id, i))
            if v == "O": self.bad("LEAK", f, i, "%s is cleared while its elements are not released" % nm)
            st.e[q] = "E"; return [st]
        return [st]
    def call(self, f, fr, st, i, init):
        nd = f.n(i); k = nd["k"]; c = list(nd.get("c", ())); fid = nd.get("fn"); name = nd.get("n") or ""; thr = []
        if k in ("CXXConstructExpr", "CXXTemporaryObjectExpr"): args = c; ob = fr["obj"] if i in init else None
        elif k == "CXXOperatorCallExpr" and nd.get("cls"): args = c[2:]; ob = self.obj(f, fr, c[1]) if len(c) > 1 else None
        elif k == "CXXMemberCallExpr":
            args = c[1:]; me = f.n(f.strip(c[0])); ob = None
            if me["k"] == "MemberExpr":
                b = me["c"][0] if me.get("c") else None
                if b is not None:
                    q = self.fkey(f, fr, b)
                    if q and q[1] in self.C: return self.contcall(f, fr, st, i, q, me["n"], args), []
                    ob = self.obj(f, fr, b)
                    if me.get("arrow"): self.use(f, fr, st, i, b)
                else: ob = fr["obj"]
        else:
            args = c[1:]; ob = None
            if name in REL: self.release(f, fr, st, i, args[0]); return [st], []
            if name == "realloc":
                v = self.val(f, fr, st, args[0]); a = st.copy(); a.e[(fr["id"], i)] = "N"
                tok = ("n", f.id, i); self.older(f, st, tok, i); v = self.val(f, fr, st, args[0])
                self.release(f, fr, st, i, args[0])
                st.t[tok] = "L"; st.e[(fr["id"], i)] = tok
                return [st, a], []
            if name == "posix_memalign":
                x = f.n(f.strip(args[0])); q = None
                if x["k"] == "UnaryOperator" and x["op"] == "&":
                    q = self.fkey(f, fr, x["c"][0]); y = f.n(f.strip(x["c"][0]))
                    if q is None and y["k"] == "DeclRefExpr": q = (fr["id"], y["d"])
                a = st.copy(); a.e[(fr["id"], i)] = "NZ"
                st.e[(fr["id"], i)] = "Z"
                if q:
                    tok = ("n", f.id, i); self.older(f, st, tok, i); st.t[tok] = "L"; self.sites.add((f.id, i)); self.set(f, i, st, q, tok, f.text(x["c"][0]))
                return [st, a], []
            if name in ACQ:
                a = st.copy(); a.e[(fr["id"], i)] = "N"
                tok = ("n", f.id, i); self.older(f, st, tok, i); st.t[tok] = "L"; st.e[(fr["id"], i)] = tok; self.sites.add((f.id, i))
                return [st, a], []
        g = self.P.fns.get(fid)
        for a in args:
            if (f.n(a).get("t") or "").rstrip().endswith("*") and not (g is not None and g.id in self.relev): self.use(f, fr, st, i, a)
        if g is not None and g.cfg is not None and ob is not None and g.id in self.relev and self.depth < 8 and g.id not in fr["stack"]:
            if g.id not in self.direct and g.id not in self.near and g.id not in self.helpers and g.kind not in ("ctor", "copyctor", "copyassign", "dtor") and self.settled(st, ob) and not any(isinstance(self.val(f, fr, st, a), tuple) for a in args if (f.n(a).get("t") or "").rstrip().endswith("*")):
                return [st], ([(st.copy(), i)] if g.id in self.throws else [])
            return self.inline(f, fr, st, i, g, ob, args)
        # what is handed to somebody else
        own = k in ("CXXConstructExpr", "CXXTemporaryObjectExpr") or name in ("push", "push_back", "insert", "emplace", "emplace_back", "push_front", "reset") or g is not None
        for a in args:
            v = self.val(f, fr, st, a)
            if isinstance(v, tuple) and own and not self.fieldheld(st, v): self.escape(st, v)
        if fid in self.throws: thr.append((st.copy(), i))
        if nd.get("noret"): return [], thr or [(st, i)]
        return [st], thr
    def settled(self, st, ob):
        """what holds at the entry of every function holds here"""
        for d, g in self.F.items():
            v = st.e.get((ob, d))
            if v is None: continue
            fl = st.e.get((ob, g)) if g else None
            if v == "U" or isinstance(v, tuple) and (st.t.get(v) != "L" or g and fl != "T") or v == "B" and g and fl != "F": return False
        return True
    def inline(self, f, fr, st, i, g, ob, args):
        fid = "%s/%d" % (fr["id"], i)
        mp = {}; e = st.copy()
        for n, p in enumerate(g.params):
            if n >= len(args): break
            t = p["t"].rstrip()
            if re.search(r"\*\s*(const)?\s*&?$", t): e.e[(fid, p["d"])] = self.val(f, fr, st, args[n])
            elif t.endswith("&"):
                o = self.obj(f, fr, args[n])
                if o is not None: mp[p["d"]] = o
        fr2 = {"id": fid, "obj": ob, "map": mp, "stack": fr["stack"] + (g.id,)}
        if g.kind in ("ctor", "copyctor") and i not in (): pass
        self.depth += 1
        outs, thr = self.run(g, fr2, e)
        self.depth -= 1
        R = []
        for s, v in outs:
            if v is not None: s.e[(fr["id"], i)] = v
            R.append(s)
        T = []
        for s, n in thr:
            # what a local of the callee holds is lost
            for x in [x for x in s.e if x[0] == fid]: del s.e[x]
            for tok, q in s.t.items():
                if q == "L" and tok[0] == "n" and tok not in st.t and ("#", "oom") not in s.e and not self.holders(s, tok): self.bad("LEAK", g, n, "memory allocated before is lost when this throws"); s.t[tok] = "X"
            T.append((s, i))
        return R, T

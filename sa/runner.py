"""Common frame of all checks: obligations, reports, evidence, exit status."""
import importlib, json, multiprocessing, os, sys, time, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import core
from core import AnalysisError

class Report:
    def __init__(self, prop):
        self.prop = prop; self.obl = []; self.viol = []; self.counts = {}; self.rules = {}; self.minimum = {}; self.notes = []; self.units = []
        self.assume = []
    def rule(self, name, text, least=1):
        """declare a rule: what it demands, and the least number of instances it must have"""
        self.rules[name] = text; self.minimum[name] = least; self.counts.setdefault(name, 0)
    def ok(self, rule, what):
        self.counts[rule] += 1; self.obl.append((rule, what, True))
    def bad(self, rule, key, where, what):
        """an instance of the rule that does not hold; key identifies it independently of line numbers"""
        self.counts[rule] += 1; self.obl.append((rule, what, False))
        if not any(v["key"] == key for v in self.viol):
            self.viol.append({"rule": rule, "key": key, "where": where, "what": what})
    def check(self, rule, cond, key, where, what):
        if cond: self.ok(rule, key)
        else: self.bad(rule, key, where, what)
        return cond
    def note(self, s): self.notes.append(s)
    def assumption(self, s): self.assume.append(s)
    def parallel(self, func, items):
        """func(report, item) for every item, in forked workers; obligations are merged in order of items"""
        global _JOB
        items = list(items); _JOB = (func, items, self)
        with multiprocessing.get_context("fork").Pool(min(8, len(items) or 1)) as pool:
            res = pool.map(_work, range(len(items)), 1)
        out = []
        for r in res:
            if isinstance(r, str): raise AnalysisError(r)
            obl, viol, notes, val = r
            for o in obl: self.counts[o[0]] += 1; self.obl.append(o)
            for v in viol:
                if not any(x["key"] == v["key"] for x in self.viol): self.viol.append(v)
            self.notes += notes; out.append(val)
        return out

_JOB = None
def _work(k):
    func, items, R = _JOB
    S = Report(R.prop); S.rules = R.rules; S.minimum = R.minimum; S.counts = {r: 0 for r in R.rules}; S.tier = R.tier
    try: val = func(S, items[k])
    except AnalysisError as e: return str(e)
    return S.obl, S.viol, S.notes, val

def known(prop):
    out = {}
    p = os.path.join(core.VERIF, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("finding: property=%s " % prop):
                key = l.split("key=[", 1)[1].split("]]", 1)[0] if "key=[" in l else None
                if key: out[key] = l.split("]]", 1)[1].strip()
    return out

def main():
    prop = sys.argv[1]; tier = os.environ.get("VERIF_TIER", "quick"); seed = int(os.environ.get("VERIF_SEED", "1"))
    if len(sys.argv) > 2: tier = sys.argv[2]
    t0 = time.time(); R = Report(prop); R.tier = tier
    m = importlib.import_module(prop.lower())
    try:
        m.check(R)
        for r in R.rules:
            if R.counts[r] < R.minimum[r]:
                raise AnalysisError("rule %s matched %d instances, at least %d were confirmed on the reference tree" % (r, R.counts[r], R.minimum[r]))
    except AnalysisError as e:
        if not [v for v in R.viol if v["key"] not in known(prop)]:
            print("ANALYSIS-ERROR property=%s %s" % (prop, e)); sys.exit(2)
        print("note: analysis incomplete: %s" % e)
    kf = known(prop); new = []
    for v in R.viol:
        if v["key"] in kf: print("KNOWN-FINDING: property=%s %s: %s" % (prop, v["key"], kf[v["key"]]))
        else: new.append(v)
    wall = time.time() - t0
    ndis = sum(1 for o in R.obl if o[2])
    ev = {"property": prop, "tier": tier, "seed": seed, "level": m.LEVEL if hasattr(m, "LEVEL") else "other",
          "coverage": {"explanation": m.__doc__.strip(), "rules": [{"rule": r, "demands": R.rules[r], "instances": R.counts[r], "least": R.minimum[r]} for r in R.rules],
                       "obligations": len(R.obl), "discharged": ndis, "units_analysed": R.units,
                       "samples": ["%s: %s" % (o[0], o[1]) for o in R.obl if o[2]][:: max(1, ndis // 12)][:12], "notes": R.notes[:60],
                       "reports": R.viol},
          "assumptions": R.assume, "wall_s": round(wall, 2), "violations": len(new)}
    os.makedirs(os.path.join(core.VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(core.VERIF, "evidence", prop + ".json"), "w") as f: json.dump(ev, f, indent=1)
    for r in R.rules: print("%s %-28s %5d instances" % (prop, r, R.counts[r]))
    print("%s: %d obligations, %d discharged, %.1f s" % (prop, len(R.obl), ndis, wall))
    if new:
        rp = os.path.join(core.VERIF, "evidence", prop + ".violations.txt")
        with open(rp, "w") as f:
            for v in new: f.write("%s [%s] %s\n    key: %s\n" % (v["where"], v["rule"], v["what"], v["key"]))
        for v in new: print("  %s [%s] %s  (key: %s)" % (v["where"], v["rule"], v["what"], v["key"]))
        print("VIOLATION property=%s replay=evidence/%s.violations.txt" % (prop, prop))
        sys.exit(1)
    sys.exit(0)

if __name__ == "__main__": main()

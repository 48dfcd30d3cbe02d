#!/usr/bin/env python3
"""tryrefac.py [-c C05,C07] [-m] [name ...]: apply the edits of meta/refac/<name>.txt (behaviour preserving; with -m meta/mut/<name>.txt, one
mutant per file, which has to be reported) to a scratch copy and run the checks on it. '== edit file' sections: old text, '----', new text"""
import json, os, re, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); a = sys.argv[1:]
kind = "refac"
if "-m" in a: kind = "mut"; a.remove("-m")
checks = None
if "-c" in a: k = a.index("-c"); checks = a[k + 1].split(","); del a[k:k + 2]
if checks is None: checks = [(c.get("property") or c.get("id")) for c in json.load(open(V + "/MANIFEST.json"))["checks"]]
for f in sorted(os.listdir(V + "/meta/" + kind)):
    n = f[:-4]
    if a and n not in a: continue
    d = tempfile.mkdtemp(prefix="rf.")
    try:
        for x in ("include", "lib", "fuzzy", "src", "unicode"): shutil.copytree(os.environ.get("BASE","/repo")+"/" + x, d + "/" + x, symlinks=True)
        txt = open(V + "/meta/%s/%s" % (kind, f)).read(); use = checks
        m = re.match(r"== checks (.*)\n", txt)
        if m: use = [c for c in (m.group(1).split() if kind == "mut" else checks)]; txt = txt[m.end():]
        good = True
        for s in re.split(r"(?m)^== edit ", txt)[1:]:
            p, body = s.split("\n", 1); old, new = re.split(r"(?m)^----\n", body)
            if old.rstrip("\n").count("\n") == 0: old = old.rstrip("\n"); new = new.rstrip("\n")
            src = open(d + "/" + p.strip(), encoding="latin-1").read()
            if src.count(old) < 1: print("!!", n, p, "old text not found:", old[:60]); good = False; break
            open(d + "/" + p.strip(), "w", encoding="latin-1").write(src.replace(old, new, 1))
        if not good: continue
        for t in ("lib/matcher.cpp", "src/reflex.cpp", "lib/pattern.cpp", "lib/convert.cpp", "lib/input.cpp"):
            r = subprocess.run(["g++", "-std=c++11", "-fsyntax-only", "-w", "-I", d + "/include", d + "/" + t], capture_output=True, text=True)
            if r.returncode: print("!!", n, "does not compile", r.stderr[:500]); good = False; break
        if not good: continue
        for c in use:
            r = subprocess.run([sys.executable, V + "/sa/runner.py", c], capture_output=True, text=True, env=dict(os.environ, RX_REPO=d))
            flag = {"refac": {0: "quiet"}, "mut": {1: "caught"}}[kind].get(r.returncode, "**** exit %d" % r.returncode)
            print("%-24s %s %s" % (n, c, flag), (r.stdout + r.stderr)[-600:].replace(d, "") if "*" in flag and (kind == "refac" or r.returncode > 1) else "", flush=True)
    finally: shutil.rmtree(d)

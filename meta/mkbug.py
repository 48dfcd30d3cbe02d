#!/usr/bin/env python3
"""Writes seeded/<id>/ from meta/bugs/*.txt. Format of a bug file: sections introduced by '== name [arg]':
prop, needs, what, edit <file> (old text, a line '----', new text), demo (C++), sh (optional demo.sh body), libs (optional)"""
import difflib, json, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); REPO = "/repo"
SH = '''#!/bin/bash
d=$(cd "$(dirname "$0")" && pwd); t=$(mktemp -d) || exit 1
trap 'rm -rf "$t"' EXIT
cd "$t" || exit 1
g++ %s -I/repo/include -I/repo/fuzzy "$d/demo.cpp" -o "$t/demo" /repo/_build/lib/libreflex.a %s || exit 1
timeout 120 "$t/demo" 2>&1 | tail -c 2000
exit ${PIPESTATUS[0]}
'''
only = sys.argv[1:]
for f in sorted(os.listdir(V + "/meta/bugs")):
    if not f.endswith(".txt"): continue
    id = f[:-4]
    if only and id not in only: continue
    secs = []; cur = None
    for l in open(V + "/meta/bugs/" + f):
        m = re.match(r"== (\w+) ?(.*)$", l)
        if m: cur = [m.group(1), m.group(2).strip(), ""]; secs.append(cur)
        elif cur: cur[2] += l
    S = {s[0]: s[2].strip() for s in secs if s[0] != "edit"}
    d = V + "/seeded/" + id; os.makedirs(d, exist_ok=True)
    files = {}
    for s in secs:
        if s[0] != "edit": continue
        old, new = re.split(r"(?m)^----\n", s[2])
        if old.rstrip("\n").count("\n") == 0: old = old.rstrip("\n"); new = new.rstrip("\n")
        p = s[1]; txt = files.get(p) or [open(REPO + "/" + p, encoding="latin-1").read()] * 2
        if txt[1].count(old) != 1: print("!!", id, p, "old text occurs", txt[1].count(old), "times"); break
        files[p] = [txt[0], txt[1].replace(old, new)]
    else:
        out = ""
        for p, (a, b) in files.items():
            out += "diff --git a/%s b/%s\n" % (p, p) + "".join(difflib.unified_diff(a.splitlines(True), b.splitlines(True), "a/" + p, "b/" + p))
        open(d + "/patch.diff", "w", encoding="latin-1").write(out)
        json.dump({"property": S["prop"], "needs": " ".join(S["needs"].split()), "what_it_breaks": " ".join(S["what"].split())}, open(d + "/meta.json", "w"), indent=1)
        if "demo" in S: open(d + "/demo.cpp", "w").write(S["demo"] + "\n")
        open(d + "/demo.sh", "w").write(S["sh"] + "\n" if "sh" in S else SH % (S.get("flags", "-O1 -g"), S.get("libs", "")))
        os.chmod(d + "/demo.sh", 0o755)
        print("ok", id)

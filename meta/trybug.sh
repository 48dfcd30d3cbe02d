#!/bin/bash
# trybug.sh ID [notest]: confirm a planted bug in a private mount of a copy of /repo, and run its check
id=$1; V=/verif; w=/tmp/wb.$id
rm -rf "/tmp/wb.$id"; cp -a /repo $w
cat > $w.sh <<S
mount --bind $w /repo || exit 9
bash $V/seeded/$id/demo.sh >$w.d0 2>&1; echo "demo clean: \$?"
git -C /repo apply $V/seeded/$id/patch.diff || { echo "PATCH FAILS"; exit 9; }
bash /opt/vp/build.sh >$w.b 2>&1; echo "build: \$?"
bash $V/seeded/$id/demo.sh >$w.d1 2>&1; echo "demo bug: \$? \$(tail -n1 $w.d1 | cut -c1-200)"
if [ "$2" != notest ]; then bash /opt/vp/test.sh $w.o.json >$w.t 2>&1; python3 -c "
import json
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); o=set(json.load(open('$w.o.json'))['passed'])
print('stable tests missing:', sorted(b-o)[:5], len(b-o))"; fi
p=\$(python3 -c "import json;print(json.load(open('$V/seeded/$id/meta.json'))['property'])")
if [ -f $V/sa/\${p,,}.py ]; then cp -r $V /tmp/vb.$id; cd /tmp/vb.$id; python3 sa/runner.py \$p quick 2>&1 | tail -n 4 | cut -c1-400; rm -rf /tmp/vb.$id; else echo "no check for \$p"; fi
S
echo "=== $id"; unshare -Urm bash $w.sh
rm -rf "/tmp/wb.$id" $w.sh $w.b $w.t $w.d0 $w.d1 $w.o.json

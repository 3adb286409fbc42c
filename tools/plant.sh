#!/bin/bash
# record the uncommitted change of scratch copy /tmp/s/repo as seeded bug: plant.sh ID PROPERTY "needs" "breaks"  (demo.cc on stdin, EXTRA = extra sources/flags)
set -e
d=/verif/seeded/$1; mkdir -p $d
git -C /tmp/s/repo diff > $d/patch.diff; git -C /tmp/s/repo checkout -q -- .
[ -s $d/patch.diff ] || { echo "no change"; exit 1; }
cat > $d/demo.cc
cat > $d/demo.sh <<S
#!/bin/bash
# cwd /repo; exits 0 iff the property holds on this demonstration
here=\$(cd "\$(dirname "\$0")" && pwd); t=\$(mktemp -d); trap 'rm -r "\$t"' EXIT
g++ -std=c++11 -O1 -g -w -pthread -DUSE_PTHREAD -DHAS_NUMPY_DEV -Iinclude -I. -Iexternal \$here/demo.cc $EXTRA -o \$t/demo || exit 9
cd \$t && timeout 120 ./demo
S
chmod +x $d/demo.sh
python3 - "$@" <<'P'
import sys,json
json.dump({"property":sys.argv[2],"needs":sys.argv[3],"what_it_breaks":sys.argv[4]},open("/verif/seeded/%s/meta.json"%sys.argv[1],"w"),indent=1)
P
cd /repo; bash $d/demo.sh && echo "clean: ok" || echo "CLEAN FAILS"
git -C /repo apply $d/patch.diff; (bash $d/demo.sh && echo "NOT DETECTED BY DEMO" || echo "patched: demo fails as it should ($?)"); 
if [ -z "$NOTEST" ]; then bash /opt/vp/build.sh >/tmp/s/b.log 2>&1 || echo BUILD FAILS; bash /opt/vp/test.sh /tmp/s/o.json >/dev/null 2>&1; python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('/tmp/s/o.json'))
print("tests failing:", sorted(set(b.get('stable_passing',b.get('passed',b.get('stable',[]))))-set(o.get('passed',[]))))
P
fi
git -C /repo checkout -q -- .

#!/bin/bash
# tools/tryseed.sh ID [notest] [checks...]: confirms a planted bug and runs checks against it, in /repo, undoing it afterwards
id=$1; shift
cd /repo || exit 3
git diff --quiet || { echo "repo dirty"; exit 3; }
S=/verif/seeded/$id
trap 'git -C /repo checkout -q -- .' EXIT
bash $S/demo.sh >/tmp/demo.$id.out 2>&1; echo "demo unpatched: $?"; 
git apply $S/patch.diff || exit 3
bash $S/demo.sh >/tmp/demo.$id.out2 2>&1; echo "demo patched: $?"; tail -2 /tmp/demo.$id.out2
if [ "$1" = notest ]; then shift; else
bash /opt/vp/build.sh >/dev/null 2>&1; echo "build: $?"
bash /opt/vp/test.sh /tmp/t.$id.json >/dev/null 2>&1
python3 - /tmp/t.$id.json <<'P'
import json,sys
r=json.load(open(sys.argv[1])); b=json.load(open('/opt/vp/BASELINE.json'))['stable']
ok=set(r.get('passed',[])) if isinstance(r.get('passed'),list) else {k for k,v in r.items() if v in('pass','passed')}
print("stable failing:", [t for t in b if t not in ok])
P
fi
for c in "$@"; do (cd /verif; timeout 900 ./check.sh $c quick > /tmp/chk.$id.$c 2>&1; echo "check $c: $?"; grep -m1 VIOLATION /tmp/chk.$id.$c | cut -c1-300); done

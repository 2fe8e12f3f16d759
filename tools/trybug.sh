#!/bin/bash
# trybug.sh ID [check...]: tries /verif/seeded/ID in a scratch copy: demo on both trees, stable tests, checks. NOTEST=1 skips tests.
ID=$1; shift
S=/verif/seeded/$ID
C=$(mktemp -d /tmp/bug.XXXXXX)
trap 'rm -rf "$C"' EXIT
cp -a /repo "$C/repo"; cp -r $S $C/demo; rm -f $C/demo/*.diff $C/demo/meta.json
. /tmp/env.sh
cd /repo && timeout 300 bash $C/demo/demo.sh >$C/d0 2>&1; echo "$ID demo clean: $?"
cd $C/repo && git apply $S/patch.diff || { echo "$ID APPLY FAILED"; exit 1; }
PYTHONPATH=$C/repo timeout 300 bash $C/demo/demo.sh >$C/d1 2>&1; r=$?; echo "$ID demo patched: $r"; [ $r = 0 ] && tail -5 $C/d1
[ -s $C/d0 ] && [ -n "$VERB" ] && { tail -3 $C/d0; echo ---; tail -3 $C/d1; }
if [ -z "$NOTEST" ]; then
  mkdir $C/j
  (cd $C/repo; PYTHONPATH=$C/repo timeout 840 python -m pytest beep -q -p no:cacheprovider --timeout=300 --continue-on-collection-errors -n 4 --dist loadfile -o junit_family=xunit2 --junitxml=$C/j/junit.xml >$C/t.log 2>&1
  /usr/bin/python3 /opt/vp/results.py $C/j/o.json junit:$C/j/junit.xml >/dev/null 2>&1
  /usr/bin/python3 - $C/j/o.json $ID <<'P'
import json,sys
o=json.load(open(sys.argv[1])); b=json.load(open('/opt/vp/BASELINE.json'))['stable']
p=set(o.get('passed',o.get('pass',[])))
m=[t for t in b if t not in p]
print(sys.argv[2],"tests: %d stable missing"%len(m), m[:5])
P
)
fi
P=$(python -c "import json;print(json.load(open('$S/meta.json'))['property'])")
for c in ${@:-$P}; do
  if [ -f /verif/sim/checks/${c,,}.py ]; then
  o=$(cd /verif && VERIF_REPO=$C/repo VERIF_SEED=1 VERIF_TIER=quick bash check.sh $c 2>&1); r=$?
  echo "$ID check $c: rc=$r $(echo "$o" | grep -E 'violation class|HARNESS' | head -2 | tr '\n' ' ')"
  fi
done

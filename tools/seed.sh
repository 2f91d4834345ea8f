#!/bin/bash
# seed.sh ID [PROP...]: applies seeded/ID to /repo, runs the stable tests, the demo and the quick checks, undoes it.
# Prints one line per step.  NOTEST=1 skips tests.
ID=$1; shift
D=/verif/seeded/$ID
P=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
[ $# -eq 0 ] && set -- $P
cd /repo || exit 1
[ -z "$(git status --porcelain)" ] || { echo "repo not clean"; exit 1; }
bash $D/demo.sh >/tmp/seed.demo0 2>&1; echo "$ID demo clean rc=$? (want 0)"
git apply $D/patch.diff || { echo "does not apply"; exit 1; }
trap 'git -C /repo checkout -q -- .' EXIT
bash $D/demo.sh >/tmp/seed.demo1 2>&1; echo "$ID demo patched rc=$? (want nonzero)"
if [ -z "$NOTEST" ]; then bash /opt/vp/test.sh /tmp/seed.json >/dev/null 2>&1; python3 - <<'PY'
import json
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); r=json.load(open('/tmp/seed.json'))
ps=r.get('passed'); ps=set(ps if isinstance(ps,list) else [k for k,v in r.get('results',r).items() if v in('pass','passed')])
print("stable tests lost:", sorted(b-ps)[:5])
PY
fi
for p in "$@"; do /verif/check $p quick > /tmp/seed.check 2>&1; rc=$?; echo "$ID check $p rc=$rc: $(grep -c ^VIOLATION /tmp/seed.check) $(grep -A1 -m1 ^VIOLATION /tmp/seed.check | tail -1)"; [ $rc -gt 1 ] && tail -3 /tmp/seed.check; done

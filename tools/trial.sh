#!/bin/bash
# trial.sh ID...: build, stable tests, demo and check of each planted bug, then demo on the clean tree
for i in "$@"; do
  D=/verif/seeded/$i; P=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
  cd /repo; [ -z "$(git status --short)" ] || { echo "repo dirty"; exit 2; }
  [ -n "$NOCLEAN" ] || { bash $D/demo.sh >/tmp/trial.clean 2>&1; echo "$i clean demo rc=$? (want 0)"; }
  git apply $D/patch.diff || exit 2
  if bash /opt/vp/build.sh >/tmp/trial.build 2>&1; then echo "$i builds"; else echo "$i BUILD FAILS"; tail -5 /tmp/trial.build; fi
  bash /opt/vp/test.sh /tmp/trial.json >/dev/null 2>&1; python3 - "$i" <<'P'
import json,sys
d=json.load(open('/tmp/trial.json')); print(sys.argv[1], "tests passed", len(d.get('passed',[])), "failed", d.get('failed'))
P
  bash $D/demo.sh >/tmp/trial.demo 2>&1; echo "$i patched demo rc=$? (want nonzero): $(tail -1 /tmp/trial.demo | cut -c1-150)"
  if [ -z "$NOCHECK" ]; then cd /verif; VERIF_SEED=1 timeout 900 python3 check.py $P --tier quick > /tmp/trial.check 2>&1; echo "$i check $P rc=$? $(grep -a VIOLATION /tmp/trial.check | head -2 | cut -c1-200)"; fi
  git -C /repo checkout -q -- .
done
cd /repo; bash /opt/vp/build.sh >/dev/null 2>&1

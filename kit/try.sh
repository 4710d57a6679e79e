#!/bin/bash
# try.sh ID [PROP]: does the planted bug count, and does its check catch it? Undoes the patch.
ID=$1; D=/verif/seeded/$ID
PROP=${2:-$(/opt/venv/bin/python -c "import json,sys;print(json.load(open('$D/meta.json'))['property'])")}
cd /repo || exit 2
[ -z "$(git status --porcelain)" ] || { echo dirty; exit 2; }
run_demo() { T=$(mktemp -d); cp -r $D/. $T; rm -f $T/*.diff $T/meta.json; (cd /repo; timeout 300 bash $T/demo.sh >/tmp/demo.out 2>&1); R=$?; /bin/rm -r "$T"; return $R; }
bash /opt/vp/build.sh >/dev/null 2>&1
run_demo; echo "$ID demo clean: $?"
git apply $D/patch.diff || exit 2
bash /opt/vp/build.sh >/tmp/build.out 2>&1; echo "$ID build: $?"
run_demo; echo "$ID demo patched: $? $(tail -1 /tmp/demo.out)"
[ -n "$NOTEST" ] || { bash /opt/vp/test.sh /tmp/t.json >/dev/null 2>&1; /opt/venv/bin/python - <<'PY'
import json
b=set(json.load(open("/opt/vp/BASELINE.json"))["stable"]); t=json.load(open("/tmp/t.json"))
p=set(t.get("passed") or [k for k,v in t.items() if v=="passed"])
print("tests lost:", sorted(b-p))
PY
}
[ -n "$NOCHECK" ] || { cd /verif; VERIF_SEED=1 VERIF_TIER=quick timeout 900 ./check.py $PROP --tier quick --no-evidence 2>&1 | tail -3; echo "$ID check exit: ${PIPESTATUS[0]}"; }
git -C /repo checkout -q -- .
rm -f /verif/replays/$PROP-*

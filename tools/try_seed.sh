#!/bin/bash
# Development aid: confirm a seeded bug (tests pass, demo 0/nonzero) in a scratch copy and run checks on it.
# usage: try_seed.sh ID [PROPERTY...]
set -u
id=$1; shift
S=/verif/seeded/$id
D=$(mktemp -d /tmp/seed.XXXXXX)
cp -a /repo "$D/repo"
cd "$D/repo" || exit 9
bash "$S/demo.sh" >"$D/demo0" 2>&1; echo "demo unchanged: $?"
git apply "$S/patch.diff" || { echo "patch does not apply"; rm -rf "$D"; exit 9; }
bash "$S/demo.sh" >"$D/demo1" 2>&1; echo "demo patched: $?"; tail -3 "$D/demo1"
/opt/venv/bin/python -m pytest -q -p no:cacheprovider --no-cov tests >"$D/tests" 2>&1; echo "tests: $?"; tail -1 "$D/tests"
props=${*:-$(/opt/venv/bin/python -c "import json;print(json.load(open('$S/meta.json'))['property'])")}
for p in $props; do KOREO_REPO=$D/repo timeout 900 /opt/venv/bin/python /verif/check.py "$p" | grep -v '^  ' ; done
rm -rf "$D"

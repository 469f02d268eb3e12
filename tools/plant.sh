#!/bin/bash
# plant.sh ID: confirm that a planted change applies, passes the tests, is shown by its demonstration, and which checks see it
ID=$1; D=/verif/seeded/$ID; shift
W=$(mktemp -d /tmp/plantXXXXXX); trap 'rm -rf "$W"' EXIT
cp -a /repo "$W/repo"; cd "$W/repo" || exit 2
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=Agg MPLCONFIGDIR=/opt/venv/mplconfig PYTHONPATH=$W/repo/src
mkdir "$W/demo"; cp "$D"/* "$W/demo/"; rm -f "$W/demo"/*.diff "$W/demo/meta.json"
bash "$W/demo/demo.sh" >"$W/clean.log" 2>&1; C=$?
git apply "$D/patch.diff" || { echo "$ID: does not apply"; exit 1; }
bash "$W/demo/demo.sh" >"$W/bad.log" 2>&1; B=$?
/opt/venv/bin/python -m pytest -q -x -p no:cacheprovider --timeout=300 tests >"$W/t.log" 2>&1; T=$?
echo "$ID: demo clean=$C patched=$B tests=$T"
[ $C = 0 ] || tail -5 "$W/clean.log"
[ $T = 0 ] || tail -5 "$W/t.log"
P=$(/usr/bin/python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
cd /verif
for p in ${@:-$P}; do
 BAROLINT_REPO=$W/repo BAROLINT_EVIDENCE=$W PYTHONPATH= /opt/venv/bin/python -m barolint $p >"$W/c.log" 2>&1; R=$?
 echo "  $p exit=$R $(grep -c '^VIOLATED' "$W/c.log") violated: $(grep '^VIOLATED' "$W/c.log" | head -3 | tr '\n' ';')"
 [ $R = 1 ] || tail -3 "$W/c.log"
done

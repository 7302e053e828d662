#!/bin/bash
# tools/trybug.sh <seeded id> [check id]: confirm a planted bug in a scratch copy of
# /repo (tests still pass, demo discriminates) and say whether the check catches it.
# Development tool only; no check uses it.
set -u
V=$(cd "$(dirname "$0")/.." && pwd); S=$V/seeded/$1
P=${2:-$(python3 -c "import json,sys;print(json.load(open('$S/meta.json'))['property'])")}
W=$(mktemp -d /tmp/try_XXXXXX); trap 'rm -rf "$W"' EXIT
cp -a /repo "$W/repo"; cd "$W/repo" || exit 2
. /opt/vp/env.sh
export PYTHONPATH=$W/repo/py
cp -r "$S" "$W/demo"
bash "$W/demo/demo.sh" >"$W/d0" 2>&1; D0=$?
git apply "$S/patch.diff" || exit 2
bash "$W/demo/demo.sh" >"$W/d1" 2>&1; D1=$?
if [ -z "${SKIPTESTS:-}" ]; then
/opt/venv/bin/python -m pytest -q -p no:cacheprovider --timeout=300 py/desimeter/test >"$W/t" 2>&1; T=$?; else T=skip; fi
VERIF_REPO=$W/repo VERIF_SEED=1 VERIF_TIER=quick timeout 900 "$V/check" "$P" >"$W/c" 2>&1; C=$?
N=$(grep -c "^VIOLATION property=$P" "$W/c")
echo "$1 $P demo0=$D0 demo1=$D1 tests=$T check=$C violations=$N"
[ "$D0" = 0 ] || tail -5 "$W/d0"; [ "$D1" != 0 ] || tail -5 "$W/d1"; [ "$T" = 0 -o "$T" = skip ] || tail -5 "$W/t"; [ "$C" = 1 ] || tail -5 "$W/c"

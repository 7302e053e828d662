#!/bin/bash
# Nothing to compile: checks that the tools answer and that the specifications parse.
cd "$(dirname "$0")/spec" || exit 1
mkdir -p ../evidence ../out
fail=0
T=$(mktemp -d)
for f in *.tla; do
  java -Djava.io.tmpdir="$T" -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar tla2sany.SANY "$f" > "$T/log" 2>&1 || { cat "$T/log"; fail=1; }
done
rm -rf "$T"
/opt/venv/bin/python -c "import numpy, scipy, astropy, fitsio" || fail=1
exit $fail

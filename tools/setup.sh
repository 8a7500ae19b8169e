#!/bin/bash
# Nothing has to be built: the code under test is imported from /repo, the specification is interpreted by TLC.
# Check that the tools are there and that every specification module parses.
cd "$(dirname "$0")/../spec" || exit 1
java -version >/dev/null 2>&1 || { echo "no java"; exit 1; }
/opt/venv/bin/python -c 'import numpy, iris, pandas, shapely' || exit 1
D=$(mktemp -d)
printf '%s\n' *.tla | xargs -P 8 -I{} sh -c \
  'java -Djava.io.tmpdir='"$D"' -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar tla2sany.SANY -error-codes {} > '"$D"'/{}.log 2>&1 || { cat '"$D"'/{}.log; exit 255; }' || exit 1
rm -rf "$D"
mkdir -p ../evidence
echo setup ok

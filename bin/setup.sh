#!/bin/bash
# Nothing to prebuild: every check compiles its harness from /repo's current tree. Verifies the tools are there
# and that every specification parses.
cd "$(dirname "$0")/.." || exit 1
command -v java >/dev/null && [ -x /usr/bin/clang++-20 ] || { echo "missing tools" >&2; exit 1; }
d=$(mktemp -d) && cp spec/*.tla "$d"/ || exit 1
rc=0
for f in "$d"/*.tla; do
  ( cd "$d" && java -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar tla2sany.SANY "$(basename "$f")" >"$f.log" 2>&1 ) || { rc=1; cat "$f.log"; }
done
rm -rf "$d"
exit $rc

#!/bin/bash
# builds the programs of the repository that checks run
here="$(cd "$(dirname "$0")/.." && pwd)"
. /opt/vp/env.sh
out="${VP_BIN:-$here/bin}"
mkdir -p "$out"
export GOSUMDB=off
cd "$here/harness"
for p in cmd/serialrecordingtohex generators/database generators/commandclasses; do
  n="$(basename $p)"
  [ "$n" = database ] || [ "$n" = commandclasses ] && n="gen_$n"
  rm -f "$out/$n"
  go build -o "$out/$n" github.com/stampzilla/gozwave/$p || echo "$p does not build"
done

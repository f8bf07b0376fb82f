#!/bin/bash
# builds everything once, to fill the build caches
cd "$(dirname "$0")/.." || exit 1
bash tools/build.sh plain && bash tools/build.sh race && bash tools/build_tools.sh && VERIF_SEED=1 python3 tools/check.py D03 --cases 1 >/dev/null
[ -x bin/zw.plain ] && [ -x bin/zw.race ]

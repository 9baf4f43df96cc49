#!/bin/bash
# check.sh <property> : builds from /repo's working tree, runs the seeded search, exits 0 (held) or 1 (VIOLATION printed)
cd "$(dirname "$0")" || exit 2
id="$1"; tier="${2:-${VERIF_TIER:-quick}}"; seed="${VERIF_SEED:-1}"
mkdir -p evidence replays build
what=sim; [ "$id" = C24 ] && what="sim py"
python3 build.py $what > build/build.$$.log 2>&1 || { cat build/build.$$.log; echo "build of the simulation failed"; exit 2; }
rm -f build/build.$$.log
[ "$id" = C24 ] && exec /usr/bin/python3 sim/py/drive.py check "$tier" "$seed" "evidence/C24.json" "$PWD/replays" known_findings.txt
exec build/sim check "$id" "$tier" "$seed" "evidence/$id.json" "$PWD/replays" known_findings.txt

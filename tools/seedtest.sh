#!/bin/bash
# seedtest.sh <seed-id> [--no-check]: validate a planted bug in a scratch copy (builds, stable tests pass, demo 0 -> nonzero)
# and run its property's check against it (VERIF_REPO points the check at the copy).
set -u
id=$1; sd=/verif/seeded/$id
w=$(mktemp -d /tmp/seed.XXXXXX); trap 'rm -rf "$w"' EXIT
prop=$(python3 -c "import json;print(json.load(open('$sd/meta.json'))['property'])")
cp -a /repo "$w/repo"
d=$w/demo; mkdir "$d"; cp -a "$sd"/. "$d"; rm -f "$d"/*.diff "$d"/meta.json
# demos use /repo through the cwd; run them in the copy
( cd "$w/repo" && timeout 300 bash "$d/demo.sh" >"$w/o1" 2>&1 ); r1=$?
git -C "$w/repo" apply "$sd/patch.diff" || { echo "$id: patch does not apply"; exit 2; }
( cd "$w/repo" && timeout 300 bash "$d/demo.sh" >"$w/o2" 2>&1 ); r2=$?
echo "$id: property=$prop demo clean=$r1 patched=$r2"
[ $r1 = 0 ] && [ $r2 != 0 ] || { tail -5 "$w/o1"; echo ---; tail -5 "$w/o2"; }
if [ "${2:-}" != "--no-check" ]; then
  ( cd /verif && VERIF_REPO=$w/repo VERIF_SEED=1 timeout 900 python3 tools/check.py "$prop" quick >"$w/c" 2>&1 ); rc=$?
  echo "$id: check $prop exit=$rc $(grep -c '^VIOLATION property='$prop "$w/c") violation lines; $(tail -1 "$w/c" | cut -c1-120)"
  [ $rc = 1 ] || tail -5 "$w/c"
  grep -A1 '^VIOLATION' "$w/c" | head -2 | cut -c1-300
fi

#!/bin/bash
# trybugs.sh [-a] [id...]: runs each planted bug's property check (with -a: every check)
# against the patched tree, in a private mount namespace over copies of /repo and
# /verif. (Development aid, not a check.)
all=; [ "$1" = -a ] && { all=1; shift; }
cd /verif; ./run.sh build
[ $# -gt 0 ] || set -- $(ls seeded)
one() {
  b=$1; all=$2; d=/tmp/tb-$b; rm -rf "$d"; mkdir -p "$d/verif"
  cp -a /repo "$d/repo"; (cd /verif; tar c --exclude=.git --exclude=./seeded --exclude=./evidence . | tar x -C "$d/verif")
  mkdir -p "$d/verif/evidence"
  p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$b/meta.json'))['property'])")
  git -C "$d/repo" apply /verif/seeded/$b/patch.diff || { echo "$b: does not apply"; rm -rf "$d"; return; }
  [ -n "$all" ] && p=$(python3 -c "import json;print(*[c['property_id'] if 'property_id' in c else c['property'] for c in json.load(open('/verif/MANIFEST.json'))['checks']])")
  for q in $p; do
    t0=$(date +%s)
    unshare -m bash -c "mount --bind $d/repo /repo && mount --bind $d/verif /verif && cd /verif && ./run.sh $q" > "$d/out" 2>&1; rc=$?
    [ -n "$all" ] && [ $rc = 0 ] && continue
    echo "$b $q rc=$rc $(( $(date +%s)-t0 ))s $(grep -m1 VIOLATION "$d/out") $(grep -m1 -A1 VIOLATION "$d/out" | tail -1 | cut -c1-150) U=$(grep -c -E 'UNDECIDED|SPURIOUS|UNSUPP' "$d/out")"
    [ $rc != 1 ] && grep -m3 -E 'UNDECIDED|SPURIOUS|UNSUPP' "$d/out"
  done
  rm -rf "$d"
}
export -f one
printf '%s\n' "$@" | xargs -P 3 -I{} bash -c "one {} $all"

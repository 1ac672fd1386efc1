#!/bin/bash
# equiv.sh [name...]: applies each behaviour-preserving refactoring in equiv/ to
# a scratch clone of /repo and runs every quick check on it.  All must be quiet.
V=$(cd "$(dirname "$0")/.." && pwd)
T=$(mktemp -d /tmp/equiv.XXXXXX) || exit 2
trap 'rm -rf "$T"' EXIT
bad=0
for d in "$V"/equiv/*.diff; do
  n=$(basename "$d" .diff)
  [ $# -gt 0 ] && case " $* " in *" $n "*) ;; *) continue ;; esac
  git clone -q /repo "$T/$n" && git -C "$T/$n" apply "$d" || { echo "$n: does not apply"; bad=1; continue; }
  for p in $(python3 -c "import json;print(*[c['property_id'] for c in json.load(open('$V/MANIFEST.json'))['checks']])"); do
    NOEVIDENCE=1 REPO="$T/$n" "$V/check.sh" "$p" quick >"$T/log" 2>&1 || { echo "$n $p rc=$?"; tail -5 "$T/log"; bad=1; }
  done
  echo "$n done"
done
exit $bad

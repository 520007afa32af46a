#!/bin/bash
# usage: try.sh PATCH CHECK...   runs checks on a scratch copy of /repo with PATCH applied
patch=$(readlink -f "$1"); shift
d=$(mktemp -d /tmp/try.XXXXXX)
cp -a /repo "$d/repo"
git -C "$d/repo" apply "$patch" || { echo "does not apply"; rm -rf "$d"; exit 3; }
for c in "$@"; do
  out=$(cd /verif && VERIF_REPO="$d/repo" ./check "$c" 2>&1); rc=$?
  echo "== $(basename "$(dirname "$patch")")/$(basename "$patch") $c exit=$rc"
  echo "$out" | grep -E "^VIOLATION|class=|HARNESS|^runs=" | cut -c1-420
done
rm -rf "$d"

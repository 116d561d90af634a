#!/bin/bash
# usage: dev-check.sh C01 C02 …   (TIER=thorough, DEV=directory)
# Runs checks from a copy of this directory against a clone of /repo, so that both originals can be edited or judged meanwhile.
# Edit $DEV/harness, then: rsync -a --delete $DEV/harness/ /verif/harness/
DEV="${DEV:-/tmp/dev}"
mkdir -p "$DEV"
[ -d "$DEV/repo" ] || git clone -q /repo "$DEV/repo"
[ -d "$DEV/verif" ] || { mkdir "$DEV/verif" && cp -a /verif/harness /verif/check /verif/*.txt /verif/*.json* "$DEV/verif/"; }
export VH_REPO="$DEV/repo"
cd "$DEV/verif" || exit 1
for c in "$@"; do
  s=$(date +%s)
  ./check "$c" "${TIER:-quick}" >"$DEV/o.$c" 2>&1
  tail -1 "$DEV/o.$c"
  grep -a 'VIOLATION\|inconcl.*:' "$DEV/o.$c" | head -5
  echo "$c $(($(date +%s) - s)) s"
done

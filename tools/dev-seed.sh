#!/bin/bash
# usage: dev-seed.sh ID…   (SEEDS=directory of the planted bugs; QUALIFY=1 also runs the tests and the demo; P=other checks)
# Applies planted bugs to the clone of dev-check.sh and runs the check of their property there.
DEV="${DEV:-/tmp/dev}"
R="$DEV/repo"
here="$(cd "$(dirname "$0")" && pwd)"
export DEV RUSTUP_TOOLCHAIN=1.85.0
for id in "$@"; do
  d="${SEEDS:-/verif/seeded}/$id"
  p=$(python3 -c 'import json,sys; print(json.load(open(sys.argv[1]))["property"])' "$d/meta.json")
  git -C "$R" apply "$d/patch.diff" || { echo "$id: does not apply"; continue; }
  if [ -n "$QUALIFY" ]; then
    v=ok
    (cd "$R" && cargo build -q --offline && cargo test -q --offline) >"$DEV/log" 2>&1 || { v="FAILS TESTS"; tail -5 "$DEV/log"; }
    (cd "$R" && timeout 300 bash "$d/demo.sh") >"$DEV/demo" 2>&1 && v="$v DEMO PASSES WITH IT"
    git -C "$R" checkout -q -- .
    (cd "$R" && cargo build -q --offline && timeout 300 bash "$d/demo.sh") >"$DEV/demo" 2>&1 || { v="$v DEMO FAILS WITHOUT"; tail -5 "$DEV/demo"; }
    echo "$id: $v"
  else
    echo "$id:" $("$here/dev-check.sh" ${P:-$p} | grep -v inconcl | tr '\n' '|')
    git -C "$R" checkout -q -- .
  fi
done

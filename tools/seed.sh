#!/bin/bash
# usage: tools/seed.sh ID...
# Confirms planted bugs (seeded/ID) and runs the check of their property against them. For each bug:
# the patch applies to /repo's HEAD, the tree builds, the stable tests pass, demo.sh fails with it
# and passes without it. Prints one line per bug. The tree of /repo is restored afterwards.
root="$(cd "$(dirname "$0")/.." && pwd)"
stable() { # OUT.json: were all stable tests passed?
  python3 - "$1" <<'PY'
import json, sys
base = json.load(open("/opt/vp/BASELINE.json"))
out = json.load(open(sys.argv[1]))
want = base.get("stable") or base.get("passed") or base["tests"]
got = set(out["passed"])
lost = [t for t in want if t not in got]
print("lost", lost[:5]) if lost else None
sys.exit(bool(lost))
PY
}
for id in "$@"; do
  dir="$root/seeded/$id"
  prop="$(python3 -c 'import json,sys; print(json.load(open(sys.argv[1]))["property"])' "$dir/meta.json")"
  if [ -n "$(git -C /repo status --porcelain)" ]; then echo "$id: /repo is dirty"; exit 2; fi
  if ! git -C /repo apply "$dir/patch.diff"; then echo "$id $prop PATCH-FAILS"; continue; fi
  log="$(mktemp)"
  verdict=""
  if ! bash /opt/vp/build.sh >"$log" 2>&1; then verdict="NO-BUILD"; fi
  if [ -z "$verdict" ] && [ -z "${SEED_NO_TEST:-}" ]; then
    bash /opt/vp/test.sh /tmp/d/seed-out.json >"$log" 2>&1
    stable /tmp/d/seed-out.json || verdict="TESTS-FAIL"
  fi
  if [ -z "$verdict" ]; then
    (cd /repo && timeout 300 bash "$dir/demo.sh") >"$log" 2>&1 && verdict="DEMO-PASSES-WITH-BUG"
  fi
  caught="-"
  if [ -z "$verdict" ]; then
    start=$(date +%s)
    for p in ${SEED_PROPS:-$prop}; do
      "$root/check" "$p" quick >"$log.check" 2>&1
      rc=$?
      caught="$caught $p:rc=$rc,$(grep -c "^VIOLATION property=$p" "$log.check")v"
      cp "$log.check" "/tmp/d/seed-$id-$p.log"
    done
    caught="$caught $(($(date +%s) - start))s"
  fi
  git -C /repo checkout -q -- .
  bash /opt/vp/build.sh >/dev/null 2>&1
  if ! (cd /repo && timeout 300 bash "$dir/demo.sh") >"$log.2" 2>&1; then verdict="$verdict DEMO-FAILS-CLEAN"; cat "$log.2"; fi
  [ -n "$verdict" ] && tail -5 "$log"
  echo "SEED $id $prop ${verdict:-ok} $caught"
  rm -f "$log" "$log.2" "$log.check"
done

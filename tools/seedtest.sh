#!/bin/bash
# seedtest.sh SEED... : validates planted bugs in a scratch copy (/tmp/seedrepo): patch applies, builds, existing tests pass,
# demo passes without and fails with the patch. Not used by any check.
VERIF="$(cd "$(dirname "$0")/.." && pwd)"
S=/tmp/seedrepo
[ -d $S ] || cp -a /repo $S
( . /opt/vp/env.sh
for id in "$@"; do
  D="$VERIF/seeded/$id"
  rsync -a --delete --exclude target --exclude .git --exclude examples/rust/out /repo/ $S/ 2>/dev/null || { cd $S && git -C $S fetch -q /repo HEAD && git -C $S checkout -qf FETCH_HEAD && git -C $S clean -qfd crates; }
  cd $S || exit 1
  if [ -z "$SKIP_CLEAN" ]; then bash "$D/demo.sh" >/tmp/seed-clean.log 2>&1; c=$?; [ $c = 0 ] || { echo "$id: demo fails on the unchanged tree ($c)"; tail -15 /tmp/seed-clean.log; continue; }; fi
  git apply "$D/patch.diff" || { echo "$id: patch does not apply"; continue; }
  mkdir -p /tmp/seedlogs; rm -f /tmp/seedlogs/*
  run() { timeout -k 10 600 cargo test --offline --no-fail-fast "${@:2}" > /tmp/seedlogs/$1.log 2>&1; }
  bash "$D/demo.sh" >/tmp/seed-demo.log 2>&1; d=$?
  [ $d = 0 ] && { echo "$id: demo passes with the patch"; git checkout -q -- . ; continue; }
  if grep -q "could not compile" /tmp/seed-demo.log; then echo "$id: does not compile"; tail -20 /tmp/seed-demo.log; git checkout -q -- .; continue; fi
  run main --workspace; run examples --workspace --examples; run extra -p tinywasm $EXTRA_TESTS; run guest-debug -p tinywasm --features guest-debug --test internal_refs
  python3 /opt/vp/spec_results.py /tmp/seedlogs/main.log /tmp/seedlogs/extra.log > /tmp/seedlogs/spec.lines
  python3 /opt/vp/results.py /tmp/seedlogs/out.json "cargo:/tmp/seedlogs/*.log" "lines:/tmp/seedlogs/spec.lines"
  python3 - "$id" <<'P'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json'))['stable']; o=json.load(open('/tmp/seedlogs/out.json')); p=set(o['passed'])
miss=[x for x in b if x not in p]
print(f"{sys.argv[1]}: {'VALID' if not miss else 'TESTS CATCH IT'} ({len(miss)} of {len(b)} missing: {miss[:5]})")
P
  tail -3 /tmp/seed-demo.log | cut -c1-200
  git checkout -q -- .
done )

#!/bin/bash
# plant.sh ID...: confirm that seeded/ID is a usable planted bug (scratch copy of /repo; see DESIGN.md)
V=$(cd "$(dirname "$0")/.." && pwd)
for id in "$@"; do
  D=/tmp/plant; rm -rf /tmp/plant; cp -a /repo "$D" || exit 2
  S="$V/seeded/$id"
  [ -f "$S/patch.diff" ] || (echo "no patch"; exit 1)
  (cd "$D" && timeout 300 bash "$S/demo.sh" >/tmp/plant.clean.log 2>&1); c=$?
  (cd "$D" && git apply "$S/patch.diff") || { echo "$id: patch does not apply"; continue; }
  . /opt/vp/env.sh
  (cd "$D" && cargo test --workspace --no-run --offline >/tmp/plant.build.log 2>&1); b=$?
  (cd "$D" && rm -rf /tmp/rust /tmp/rust_test /tmp/simple.root; cargo test --workspace --no-fail-fast --offline -- --test-threads 8 >/tmp/plant.test.log 2>&1); 
  t=$(grep -c '^test .* FAILED' /tmp/plant.test.log); ok=$(grep -c '^test .* ok$' /tmp/plant.test.log)
  (cd "$D" && timeout 300 bash "$S/demo.sh" >/tmp/plant.bug.log 2>&1); d=$?
  v=good; { [ $c = 0 ] && [ $b = 0 ] && [ $ok -ge 133 ] && [ $d != 0 ]; } || v=BAD
  echo "$id: $v demo-clean=$c build=$b failed-tests=$t ok-tests=$ok demo-bug=$d"
  tail -3 /tmp/plant.bug.log | sed 's/^/   bug: /'
  [ $c = 0 ] || tail -5 /tmp/plant.clean.log | sed 's/^/   clean: /'
  [ $b = 0 ] || grep -A6 '^error' /tmp/plant.build.log | head -30
  [ $ok -ge 133 ] || grep "^test .* FAILED" /tmp/plant.test.log | head -70
  rm -rf /tmp/plant
done

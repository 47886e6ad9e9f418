#!/bin/bash
# check.sh build | check.sh ID quick|thorough
# Builds simcheck against /repo's working tree (offline, outside /repo) and runs it.
cd "$(dirname "$0")" || exit 2
export CARGO_NET_OFFLINE=true VERIF_DIR="$PWD" CARGO_TERM_COLOR=never
T="$PWD/target"
# arithmetic that overflows wraps, as in a release build, or panics, as in a debug
# build: the latter for properties in which no panic is excused
case "$1${SIM_BUILT:+-2}" in build-2|C01|C04|C06|C07|C12|C13|C17|C18|C20|C26) P=checked ;; *) P=release ;; esac
mkdir -p "$T" evidence replays
exec 9>"$T/.lock"
flock 9
# contents, not time stamps, decide whether the library has to be rebuilt
H=$( (cd /repo && find oxyroot oxyroot_derive oxyroot-ls oxyroot-dump Cargo.toml -type f \( -name '*.rs' -o -name '*.toml' \) -print0 | LC_ALL=C sort -z | xargs -0 sha256sum; cd "$VERIF_DIR/sim" && find . -type f -print0 | LC_ALL=C sort -z | xargs -0 sha256sum) | sha256sum | cut -d' ' -f1)
if [ "$(cat "$T/.hash-$P" 2>/dev/null)" != "$H" ] || [ ! -x "$T/$P/simcheck" ]; then
  rm -f "$T/.hash-$P"
  L="$T/build.log"
  (cd sim && cargo clean -q --profile $P --offline --target-dir "$T" -p oxyroot -p oxyroot_derive -p simtools -p simcheck) >"$L" 2>&1
  if ! (cd sim && cargo build --profile $P --offline --locked --target-dir "$T") >>"$L" 2>&1; then
    echo "build failed:"; grep -A12 '^error' "$L" | head -60
    exit 2
  fi
  echo "$H" >"$T/.hash-$P"
fi
flock -u 9
exec 9>&-
if [ "$1" = build ]; then
  # the other profile as well
  [ -n "$SIM_BUILT" ] || SIM_BUILT=1 exec "./check.sh" build
  exit 0
fi
exec "$T/$P/simcheck" check "$1" "${2:-${VERIF_TIER:-quick}}"

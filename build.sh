#!/bin/bash
# Builds the simulator against /repo's current working tree. Writes nothing in /repo.
set -u
here="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
source /opt/vp/env.sh >/dev/null 2>&1
cd "$here/sim" || exit 2
export CARGO_TARGET_DIR="$here/sim/target"
export CARGO_INCREMENTAL=0
mkdir -p "$CARGO_TARGET_DIR"
exec 9>"$CARGO_TARGET_DIR/.build.lock"
flock 9
# cargo trusts modification times; this does not
sum="$( (cd /repo && find Cargo.toml src le -type f \( -name '*.rs' -o -name Cargo.toml \) -not -path '*/target/*' | LC_ALL=C sort | xargs sha256sum; cd "$here/sim" && find Cargo.toml Cargo.lock src -type f | LC_ALL=C sort | xargs sha256sum) | sha256sum)"
stamp="$CARGO_TARGET_DIR/.content"
if [ "$(cat "$stamp" 2>/dev/null)" != "$sum" ] || [ ! -x "$CARGO_TARGET_DIR/release/bmsim" ]; then
  rm -f "$stamp"
  cargo clean --release --offline -p bm -p bm-le -p bm-le-derive -p bmsim >/dev/null 2>&1
  if ! cargo build --release --offline >"$CARGO_TARGET_DIR/build.log" 2>&1; then
    grep -E -A8 '^error' "$CARGO_TARGET_DIR/build.log" | head -60 >&2
    tail -5 "$CARGO_TARGET_DIR/build.log" >&2
    echo "the simulator does not build against /repo" >&2
    exit 2
  fi
  echo "$sum" >"$stamp"
fi
exit 0

#!/bin/bash
# Builds the model checkers from /repo's current working tree. usage: build.sh <crate>...
here="$(cd "$(dirname "$0")" && pwd)"
. /opt/vp/env.sh
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS
for c in "$@"; do
  export CARGO_TARGET_DIR="$here/target/$c"
  (cd "$here/$c" && cargo build --release --offline --locked 2>&1) >"$here/target/$c.log" 2>&1 || {
    grep -E '^error' -A8 "$here/target/$c.log" | head -60
    echo "build of $c failed (log: $here/target/$c.log)" >&2
    exit 2
  }
done

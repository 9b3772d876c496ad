#!/bin/bash
# exit 0: the guarantee held; nonzero: it was broken
here="$(cd "$(dirname "$0")" && pwd)"
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
s="$(mktemp -d)" || exit 3
trap 'rm -rf "$s"' EXIT
cp -r "$here/src" "$here/Cargo.toml" "$here/Cargo.lock" "$s/" || exit 3
cd "$s" && CARGO_TARGET_DIR="$s/target" cargo build --offline >"$s/log" 2>&1 || { tail -30 "$s/log"; exit 3; }
"$s/target/debug/demo"

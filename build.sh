#!/bin/bash
# Builds the checks against /repo's current working tree. Source-hash guarded:
# whatever cargo thinks of time stamps, a changed /repo is compiled anew.
set -u
V=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
. "$V/env.sh"
mkdir -p "$CARGO_TARGET_DIR"
exec 9>"$CARGO_TARGET_DIR/.verif-lock"; flock 9
hash=$( (cd /repo && find src Cargo.toml Cargo.lock -type f -print0 2>/dev/null | sort -z | xargs -0 sha256sum; cd "$V/harness" && find . -path ./target -prune -o -type f -print0 | sort -z | xargs -0 sha256sum) | sha256sum | cut -d' ' -f1)
stamp="$CARGO_TARGET_DIR/.verif-built"
if [ "$(cat "$stamp" 2>/dev/null)" = "$hash" ] && [ -x "$CARGO_TARGET_DIR/release/pbt" ] && [ -x "$CARGO_TARGET_DIR/release/louis" ]; then exit 0; fi
rm -f "$stamp" "$CARGO_TARGET_DIR/release/pbt" "$CARGO_TARGET_DIR/release/louis"
cd "$V/harness" || exit 2
cargo clean --offline --release -p louis-rs -p louis-pbt >/dev/null 2>&1
log="$CARGO_TARGET_DIR/build.log"
if ! cargo build --offline --release >"$log" 2>&1; then
  # A change that no longer fits the hook: check what the public interface shows.
  echo "note: building without the verification hook" >&2
  export RUSTFLAGS="-Awarnings"
  if ! cargo build --offline --release >"$log" 2>&1; then
    tail -40 "$log" >&2
    echo "error: /repo does not build" >&2
    exit 2
  fi
fi
[ -x "$CARGO_TARGET_DIR/release/pbt" ] || { echo "error: no binary" >&2; exit 2; }
echo "$hash" > "$stamp"

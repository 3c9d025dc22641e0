#!/bin/bash
# check.sh build | check.sh <property> quick|thorough | check.sh replay <file>
# Builds the model checker against /repo's current working tree, then runs it.
cd "$(dirname "$0")" || exit 2
. ./env.sh
mkdir -p "$CARGO_TARGET_DIR"
# cargo decides by modification time, which a copied tree may not keep: when
# the sources differ from those of the last build, force their rebuild
sum=$(cd /repo && find crates/*/src crates/*/Cargo.toml crates/*/build.rs vendor-protobufs Cargo.toml -type f -print0 2>/dev/null \
  | sort -z | xargs -0 sha256sum | sha256sum | cut -d' ' -f1)
stamp="$CARGO_TARGET_DIR/repo.sum"
log="$CARGO_TARGET_DIR/build.log"
if [ "$(cat "$stamp" 2>/dev/null)" != "$sum" ]; then
  rm -f "$stamp"
  (cd mc && $CARGO clean --offline -p kuadrant-filter -p shim -p mc) >"$log" 2>&1
fi
if ! (cd mc && $CARGO build --offline) >"$log" 2>&1; then
  tail -60 "$log" >&2
  echo "the model checker does not build against /repo" >&2
  exit 3
fi
echo "$sum" >"$stamp"
bin="$CARGO_TARGET_DIR/debug/mc"
case "$1" in
  build) exit 0 ;;
  replay) exec "$bin" replay "$2" ;;
  *) exec "$bin" check "$1" "${2:-quick}" ;;
esac

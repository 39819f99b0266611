#!/bin/bash
# Builds the harness against /repo's current working tree, then runs one check.
#   check.sh build        only build
#   check.sh <ID>         run the check of property <ID> (VERIF_SEED, VERIF_TIER from the environment)
#   check.sh replay FILE  re-run a replay file
set -u
ROOT="$(cd "$(dirname "$0")" && pwd)"
export VERIF_ROOT="$ROOT"
export RUSTUP_TOOLCHAIN=1.81.0 CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
export CARGO_TARGET_DIR="$ROOT/harness/target"
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS
REPO=/repo
mkdir -p "$CARGO_TARGET_DIR" "$ROOT/evidence" "$ROOT/replays"
exec 9>"$CARGO_TARGET_DIR/.check.lock"
flock 9
# Rebuild from the contents of the tree, not from its time stamps.
SUM=$(cd "$REPO" && find . \( -path ./.git -o -path ./target -o -name target \) -prune -o -type f \
        \( -name '*.rs' -o -name '*.S' -o -name '*.h' -o -name '*.c' -o -name '*.toml' -o -name '*.lock' \) -print0 \
      | LC_ALL=C sort -z | xargs -0 sha256sum | sha256sum | cut -d' ' -f1)
OLD=$(cat "$CARGO_TARGET_DIR/.repo.sum" 2>/dev/null || true)
cd "$ROOT/harness" || exit 2
if [ "$SUM" != "$OLD" ]; then
  rm -f "$CARGO_TARGET_DIR/.repo.sum"
  cargo clean --release --offline -q -p ckb-vm -p ckb-vm-definitions -p vmcheck >/dev/null 2>&1
fi
LOG="$CARGO_TARGET_DIR/build.log"
if ! cargo build --release --offline --locked >"$LOG" 2>&1; then
  echo "harness build failed" >&2
  tail -60 "$LOG" >&2
  exit 2
fi
echo "$SUM" > "$CARGO_TARGET_DIR/.repo.sum"
BIN="$CARGO_TARGET_DIR/release/vmcheck"
flock -u 9
exec 9>&-
case "${1:-}" in
  build) exit 0 ;;
  replay) exec "$BIN" replay "$2" ;;
  "") echo "usage: check.sh build | <ID> | replay FILE" >&2; exit 2 ;;
  *) exec "$BIN" check "$1" ;;
esac

# Sourced by the checks: builds the harness against /repo's current tree.
export VERIF_DIR="$(cd "$(dirname "${BASH_SOURCE[0]}")/.." && pwd)"
export RUSTUP_TOOLCHAIN=1.70 RUSTFLAGS="-C target-cpu=x86-64" CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
export CARGO_INCREMENTAL=0 RUSTC_WRAPPER= RUST_BACKTRACE=0
unset RUSTC CARGO_TARGET_DIR CARGO_BUILD_TARGET CARGO_PROFILE_DEV_DEBUG CARGO_PROFILE_DEV_OPT_LEVEL
export PATH="/root/.cargo/bin:$PATH"
TARGET="$VERIF_DIR/.build/target"

# build BIN...: (re)builds the named binaries; exit 2 when that fails.
build() {
  mkdir -p "$TARGET"
  # Cargo decides by modification time; the content hash makes sure that no stale copy of the crate
  # under test is used when files were replaced with older time stamps.
  local h stamp="$VERIF_DIR/.build/repo.hash"
  h=$(cd /repo && { cat Cargo.toml; find src -type f -print0 | sort -z | xargs -0 sha256sum; } | sha256sum)
  if [ "$(cat "$stamp" 2>/dev/null)" != "$h" ]; then
    (cd "$VERIF_DIR/harness" && cargo clean --offline --target-dir "$TARGET" -p ruler >/dev/null 2>&1)
  fi
  local args=()
  for b in "$@"; do args+=(--bin "$b"); done
  if ! (cd "$VERIF_DIR/harness" && cargo build --locked --offline --target-dir "$TARGET" "${args[@]}") >"$VERIF_DIR/.build/build.log" 2>&1; then
    cat "$VERIF_DIR/.build/build.log" >&2
    echo "ERROR: the harness does not build; no verdict" >&2
    exit 2
  fi
  echo "$h" > "$stamp"
}

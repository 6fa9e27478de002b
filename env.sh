# Sourced by the scripts: where things are, and how the harness is built.
export VERIF_ROOT="$PWD"
export CARGO_NET_OFFLINE=true
export CARGO_TARGET_DIR="$PWD/target"
VBIN="$CARGO_TARGET_DIR/debug/vharness"
build_harness() {
  local log stamp
  mkdir -p "$CARGO_TARGET_DIR"
  # cargo decides by modification time; a copied or patched tree may carry older times, so
  # also compare contents and force a rebuild when they changed.
  stamp=$(find /repo/src /repo/Cargo.toml "$VERIF_ROOT/harness/src" "$VERIF_ROOT/harness/Cargo.toml" "$VERIF_ROOT/harness/literals.txt" "$VERIF_ROOT/lite" "$VERIF_ROOT/hw" "$VERIF_ROOT/ctap" -type f -print0 | LC_ALL=C sort -z | xargs -0 sha256sum | sha256sum)
  if [ "$(cat "$CARGO_TARGET_DIR/stamp" 2>/dev/null)" != "$stamp" ]; then
    cargo clean --offline --quiet --manifest-path "$VERIF_ROOT/harness/Cargo.toml" -p sshcerts -p vharness >/dev/null 2>&1
    cargo clean --offline --quiet --manifest-path "$VERIF_ROOT/lite/Cargo.toml" --target-dir "$CARGO_TARGET_DIR/lite" -p sshcerts -p vlite >/dev/null 2>&1
    cargo clean --offline --quiet --manifest-path "$VERIF_ROOT/hw/Cargo.toml" --target-dir "$CARGO_TARGET_DIR/hw" -p sshcerts -p vharness -p vhw >/dev/null 2>&1
    cargo clean --offline --quiet --manifest-path "$VERIF_ROOT/ctap/Cargo.toml" --target-dir "$CARGO_TARGET_DIR/ctap" -p sshcerts -p vharness -p vctap >/dev/null 2>&1
    rm -f "$CARGO_TARGET_DIR/stamp"
  fi
  # The compiler's output matters only when it fails.
  log=$(mktemp)
  if cargo build --offline --quiet --manifest-path "$VERIF_ROOT/harness/Cargo.toml" >"$log" 2>&1; then
    rm -f "$log"
    echo "$stamp" > "$CARGO_TARGET_DIR/stamp"
    return 0
  fi
  cat "$log" >&2; rm -f "$log"; return 1
}
# The library with everything that talks to tokens, and the emulated tokens (call after build_harness):
# hw has the default features, ctap the other FIDO backend.
build_tokens() {
  local log build
  log=$(mktemp)
  build="cargo build --offline --quiet --manifest-path $VERIF_ROOT/$1/Cargo.toml --target-dir $CARGO_TARGET_DIR/$1"
  # With the emulated tokens' attestation root in place of Yubico's, or, where the hook for that
  # does not build, without.
  if RUSTFLAGS="--cfg sshcerts_verif_root" SSHCERTS_VERIF_ROOT="$VERIF_ROOT/hw/root.pem" $build >"$log" 2>&1 || $build >"$log" 2>&1; then
    rm -f "$log"
    return 0
  fi
  cat "$log" >&2; rm -f "$log"; return 1
}
# The one of these that a check uses, if any.
tokens_of() {
  case "$1" in C29 | C35) echo hw ;; C36) echo ctap ;; esac
}
# The library without optional features, for the check that compares the two (call after build_harness).
build_lite() {
  local log
  log=$(mktemp)
  if cargo build --offline --quiet --manifest-path "$VERIF_ROOT/lite/Cargo.toml" --target-dir "$CARGO_TARGET_DIR/lite" >"$log" 2>&1; then
    rm -f "$log"
    return 0
  fi
  cat "$log" >&2; rm -f "$log"; return 1
}

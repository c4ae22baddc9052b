# Sourced by setup.sh and check.sh: builds the monitor binary, offline, from /repo's tree.
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER= RUST_BACKTRACE=0
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export PATH=/usr/local/bin:/root/.cargo/bin:/usr/bin:/bin:$PATH
export CARGO_TARGET_DIR="$VERIF_DIR/target"
unset RUSTFLAGS RUSTDOCFLAGS RUST_LOG LD_LIBRARY_PATH

repo_hash() {
  (cd /repo && find Cargo.toml tower tower-layer tower-service tower-test -type f \
     \( -name '*.rs' -o -name Cargo.toml \) -not -path '*/target/*' -print0 | LC_ALL=C sort -z | xargs -0 sha256sum | sha256sum)
}

build_mon() {
  mkdir -p "$VERIF_DIR/out" "$CARGO_TARGET_DIR"
  local h log="$VERIF_DIR/out/build.log"
  h=$(repo_hash)
  # cargo looks at times, the tree may have been laid out anew: compare contents as well
  if [ -d "$CARGO_TARGET_DIR/debug" ] && [ "$h" != "$(cat "$CARGO_TARGET_DIR/repo.hash" 2>/dev/null)" ]; then
    (cd harness && cargo clean --offline -p tower -p tower-layer -p tower-service -p tower-test) >/dev/null 2>&1
  fi
  if ! (cd harness && cargo build --offline --locked) >"$log" 2>&1; then
    grep -E '^(error|warning: unused)' -A12 "$log" | head -60
    tail -5 "$log"
    echo "BUILD-FAILED: the monitors do not build against /repo (see $log)"
    return 1
  fi
  echo "$h" > "$CARGO_TARGET_DIR/repo.hash"
}

# sourced: build_crate <dir>
export HOME=${HOME:-/root} CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER= CARGO_INCREMENTAL=0
export PATH=/usr/local/bin:/root/.cargo/bin:$PATH
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
unset CARGO_TARGET_DIR RUSTFLAGS CARGO_BUILD_TARGET_DIR CARGO_ENCODED_RUSTFLAGS
repo_hash() {
  (cd /repo && { find src -type f -print0 | sort -z | xargs -0 sha256sum; sha256sum Cargo.toml; } | sha256sum | cut -d' ' -f1)
}
# cargo looks at modification times, which copies of the tree may not preserve:
# the crate is rebuilt whenever the contents of /repo aren't the ones of the last build
build_crate() {
  local d=$V/$1 h
  h=$(repo_hash)
  if [ "$(cat "$d/target/repo.hash" 2>/dev/null)" != "$h" ]; then
    rm -f "$d/target/repo.hash"
    (cd "$d" && cargo clean -q -p termimad --offline 2>/dev/null)
  fi
  (cd "$d" && cargo build -q --offline) || return 1
  echo "$h" > "$d/target/repo.hash"
}

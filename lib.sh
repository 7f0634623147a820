# Shared by check.sh and setup.sh: builds the harness variants from /repo's current tree.
ROOT="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS CARGO_BUILD_TARGET CARGO_TARGET_DIR RUSTC_WRAPPER
mkdir -p "$ROOT/out" "$ROOT/evidence"
srchash() { (cd /repo && find Cargo.toml crates -path '*/target' -prune -o -path '*/tests/*' -prune -o \( -name '*.rs' -o -name '*.toml' \) -type f -print0 | sort -z | xargs -0 sha256sum; cd "$ROOT" && find harness miri bare w32 -path '*/target*' -prune -o \( -name '*.rs' -o -name '*.toml' \) -type f -print0 2>/dev/null | sort -z | xargs -0 sha256sum) | sha256sum | cut -d' ' -f1; }
# build <target dir under harness/> <cargo arguments...>: rebuilds if the sources changed
build() {
  local dir="$ROOT/harness/$1"; shift
  local h; h=$(srchash)
  # whatever cargo makes of the time stamps, changed sources are compiled again
  if [ -f "$dir/src.hash" ] && [ "$(cat "$dir/src.hash")" != "$h" ]; then rm -rf "$dir"/*/.fingerprint/tinywasm* "$dir"/*/.fingerprint/twverif* "$dir"/*/*/.fingerprint/tinywasm* "$dir"/*/*/.fingerprint/twverif* "$dir"/*/*/build/tinywasm* "$dir"/*/*/build/twverif*; fi
  local log="$ROOT/out/build-$(basename "$dir").log"
  if ! (cd "$ROOT/harness" && cargo ${TOOLCHAIN:-} build --offline -q --target-dir "$dir" "$@") >"$log" 2>&1; then
    echo "building the harness failed:"; tail -40 "$log"; return 1
  fi
  echo "$h" > "$dir/src.hash"
}

# the command line tool, from /repo
build_cli() {
  local dir="$ROOT/harness/target-cli" log="$ROOT/out/build-target-cli.log" h; h=$(srchash)
  if [ -f "$dir/src.hash" ] && [ "$(cat "$dir/src.hash")" != "$h" ]; then rm -rf "$dir"/*/.fingerprint/tinywasm*; fi
  if ! (cd "$ROOT/harness" && cargo build --offline -q --locked --manifest-path /repo/Cargo.toml -p tinywasm-cli --bin tinywasm --target-dir "$dir") >"$log" 2>&1; then
    echo "building the command line tool failed:"; tail -40 "$log"; return 1
  fi
  echo "$h" > "$dir/src.hash"
}

# the runtime alone, without std and parser, in a runner
build_bare() {
  local dir="$ROOT/bare/target" log="$ROOT/out/build-bare.log" h; h=$(srchash)
  if [ -f "$dir/src.hash" ] && [ "$(cat "$dir/src.hash")" != "$h" ]; then rm -rf "$dir"/*/.fingerprint/tinywasm* "$dir"/*/.fingerprint/twbare*; fi
  if ! (cd "$ROOT/bare" && cargo build --offline -q --target-dir "$dir") >"$log" 2>&1; then echo "building without std failed:"; tail -20 "$log"; return 1; fi
  echo "$h" > "$dir/src.hash"
}
# the monitors for a 32-bit machine (WebAssembly, run by node)
build_w32() {
  local dir="$ROOT/w32/target" log="$ROOT/out/build-w32.log" h; h=$(srchash)
  if [ -f "$dir/src.hash" ] && [ "$(cat "$dir/src.hash")" != "$h" ]; then rm -rf "$dir"/*/*/.fingerprint/tinywasm* "$dir"/*/*/.fingerprint/tw*; fi
  if ! (cd "$ROOT/w32" && RUSTFLAGS="-Clink-arg=-zstack-size=67108864" cargo +nightly build --offline -q -Zbuild-std=std,panic_abort --target wasm32-unknown-unknown --target-dir "$dir") >"$log" 2>&1; then echo "building for 32 bits failed:"; tail -20 "$log"; return 1; fi
  echo "$h" > "$dir/src.hash"
}

# the address sanitizer build, with the x86 intrinsics
build_asan() { RUSTFLAGS="-Zsanitizer=address -C target-cpu=x86-64-v3" TOOLCHAIN=+nightly build target-asan --target x86_64-unknown-linux-gnu --features tinywasm/simd-x86 --bin tw; }
# the runner under Miri; also builds what it needs (a standard library for Miri, the runner)
build_miri() {
  local h; h=$(srchash)
  if [ -f "$ROOT/miri/target/src.hash" ] && [ "$(cat "$ROOT/miri/target/src.hash")" != "$h" ]; then rm -rf "$ROOT"/miri/target/miri/*/*/build/tinywasm* "$ROOT"/miri/target/miri/*/*/build/twmiri*; fi
  mkdir -p "$ROOT/out/miri-warm"; echo "M 0061736d01000000" > "$ROOT/out/miri-warm/1.case"
  if ! TWM_DIR="$ROOT/out/miri-warm" "$ROOT/miri/run.sh" one miri 1 > "$ROOT/out/build-miri.log" 2>&1; then echo "running under Miri failed:"; tail -40 "$ROOT/out/build-miri.log"; return 1; fi
  echo "$h" > "$ROOT/miri/target/src.hash"
}

# the thread sanitizer build, with an instrumented standard library
build_tsan() { RUSTFLAGS="-Zsanitizer=thread" TOOLCHAIN=+nightly build target-tsan -Zbuild-std --target x86_64-unknown-linux-gnu --bin tw; }

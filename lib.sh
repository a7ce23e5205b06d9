# sourced by run.sh and setup.sh: build against the current /repo working tree
. "$(dirname "${BASH_SOURCE[0]}")/env.sh"
V="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
export VERIF_DIR="$V" CARGO_TARGET_DIR="$V/target"
repo_hash() {
  (cd /repo && find . -path ./target -prune -o -path ./.git -prune -o -type f \( -name '*.rs' -o -name '*.toml' -o -name '*.lock' -o -name '*.proto' \) -print0 | sort -z | xargs -0 sha256sum | sha256sum | cut -d' ' -f1)
}
# cargo decides by file times whether to rebuild; make it depend on the content instead
freshen() {
  local dir="$1" h
  h="$(repo_hash)"
  if [ "$(cat "$dir/.repo_hash" 2>/dev/null)" != "$h" ]; then
    mkdir -p "$dir"
    local f
    for f in "$dir"/debug/.fingerprint/banyan* "$dir"/*/debug/.fingerprint/banyan*; do
      if [ -e "$f" ]; then find "$f" -delete; fi
    done
    echo "$h" >"$dir/.repo_hash"
  fi
}
build() { # crate bin
  freshen "$CARGO_TARGET_DIR"
  (cd "$V/$1" && cargo build --offline --locked --bin "$2" -q) || { echo "build of $2 failed" >&2; exit 3; }
}
# with AddressSanitizer in banyan, its Rust dependencies, and the C code of zstd
asan_build() { # bin
  freshen "$V/target-asan"
  (cd "$V/harness" && env CARGO_TARGET_DIR="$V/target-asan" RUSTC_BOOTSTRAP=1 RUSTFLAGS=-Zsanitizer=address \
    CC=/usr/bin/clang CFLAGS="-fsanitize=address -fno-omit-frame-pointer" \
    cargo build --offline --locked --target x86_64-unknown-linux-gnu --features asan --bin "$1" -q) ||
    { echo "asan build of $1 failed" >&2; exit 3; }
}
# with ThreadSanitizer in everything: std, all Rust dependencies, and C code. The pinned toolchain
# has no source of std, so this uses the stable one, with a lock file that differs in the
# version of proc-macro2 only (the locked one needs a compiler of its time)
tsan_build() { # crate bin
  local w="$V/target-tsan/ws" c
  mkdir -p "$w"
  freshen "$V/target-tsan"
  for c in harness umon; do
    mkdir -p "$w/$c"
    cp -p "$V/$c/Cargo.toml" "$w/$c/"
    cp -p "$V/$c/Cargo.tsan.lock" "$w/$c/Cargo.lock"
    ln -sfn "$V/$c/src" "$w/$c/src"
  done
  (cd "$w/$1" && env RUSTUP_TOOLCHAIN=stable CARGO_TARGET_DIR="$V/target-tsan" RUSTC_BOOTSTRAP=1 \
    RUSTFLAGS="-Zsanitizer=thread -Cunsafe-allow-abi-mismatch=sanitizer --cap-lints allow" \
    CC=/usr/bin/clang CXX=/usr/bin/clang++ CFLAGS="-fsanitize=thread -g1" CXXFLAGS="-fsanitize=thread -g1" \
    cargo build --offline --locked -Zbuild-std --target x86_64-unknown-linux-gnu --bin "$2" -q) ||
    { echo "tsan build of $2 failed" >&2; return 1; }
}
# the first phase of a check: the same monitor under ThreadSanitizer. Exits when it finds a
# violation; where the sanitizer cannot run, the check goes on without, and its evidence says so
tsan_phase() { # crate bin ID seconds
  export BMON_MERGE="$V/target-tsan/$3.phase.json" BMON_MERGE_OPTIONAL=1
  rm -f "$V/target-tsan/$3.phase.json"
  tsan_build "$1" "$2" || return 0
  local out="$V/target-tsan/$3.out"
  env BMON_PHASE=tsan BMON_SANITIZER=ThreadSanitizer BMON_SECS="$4" BMON_WALL=$((4 * $4 + 60)) BMON_EVIDENCE="$BMON_MERGE" \
    TSAN_OPTIONS=exitcode=99:halt_on_error=1:report_thread_leaks=0:report_signal_unsafe=0:suppressions="$V/tsan.supp" \
    "$V/target-tsan/x86_64-unknown-linux-gnu/debug/$2" >"$out" 2>"$out.err"
  local rc=$?
  if [ $rc = 1 ]; then
    head -c 20000 "$out.err" >&2; cat "$out"; exit 1
  elif [ $rc != 0 ]; then
    echo "the phase with ThreadSanitizer was not conclusive:" >&2; head -c 2000 "$out.err" >&2
    rm -f "$BMON_MERGE"
  fi
}
# the command line tool as it is in /repo, and the shim that is preloaded into it
cli_build() {
  freshen "$CARGO_TARGET_DIR"
  (cd /repo && CARGO_PROFILE_DEV_DEBUG=1 CARGO_PROFILE_DEV_OPT_LEVEL=1 cargo build --offline --locked --bin banyan-cli -q) ||
    { echo "build of banyan-cli failed" >&2; exit 3; }
  gcc -O1 -shared -fPIC -o "$CARGO_TARGET_DIR/shim.so" "$V/umon/shim.c" -ldl -lpthread || exit 3
}

#!/bin/bash
# compiles everything once, so that the checks only need to rebuild what changed in /repo
. "$(dirname "$0")/lib.sh"
freshen "$CARGO_TARGET_DIR"
for c in harness umon; do
  [ -d "$V/$c" ] && { (cd "$V/$c" && cargo build --offline --locked --bins) || exit 1; }
done
# the rest is built by the checks that need it when the time does not suffice here
step() {
  local left=$((1400 - SECONDS))
  [ "$left" -gt 30 ] && VERIF_HOME="$V" timeout "$left" bash -c '. "$VERIF_HOME/lib.sh"; "$@"' lib "$@"
  return 0
}
step cli_build
step asan_build c24
step tsan_build harness c12
step tsan_build harness c18
step tsan_build umon c19
exit 0

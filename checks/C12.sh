# sourced by run.sh. Phase 1: under ThreadSanitizer (everything instrumented), mostly with threads
# that share only what banyan shares. Phase 2: the whole workload, uninstrumented.
if [ -z "$1" ]; then
  secs=10; [ "$VERIF_TIER" = thorough ] && secs=150
  tsan_phase harness c12 C12 $secs
fi
build harness c12
exec "$CARGO_TARGET_DIR/debug/c12" "$@"

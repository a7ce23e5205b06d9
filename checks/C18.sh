# sourced by run.sh. Phase 1: under ThreadSanitizer. Phase 2: the whole workload, uninstrumented.
if [ -z "$1" ]; then
  secs=8; [ "$VERIF_TIER" = thorough ] && secs=150
  tsan_phase harness c18 C18 $secs
fi
build harness c18
exec "$CARGO_TARGET_DIR/debug/c18" "$@"

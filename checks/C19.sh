# sourced by run.sh. Phase 1: the memory and SQLite stores under ThreadSanitizer (with the C code of
# SQLite). Phase 2: the whole workload, uninstrumented.
if [ -z "$1" ]; then
  secs=8; [ "$VERIF_TIER" = thorough ] && secs=150
  tsan_phase umon c19 C19 $secs
fi
build umon c19
exec "$CARGO_TARGET_DIR/debug/c19" "$@"

# sourced by run.sh. Phase 1: the codec under AddressSanitizer (Rust code and the C code of
# zstd). Phase 2: the same workload with the tracking allocator, plus deep nesting probes.
case "$1" in
"")
  asan_build c24
  export BMON_EVIDENCE="$V/target-asan/C24.phase.json"
  rm -f "$V/target-asan/C24.phase.json"
  secs=8; [ "$VERIF_TIER" = thorough ] && secs=150
  env BMON_PHASE=asan BMON_SANITIZER=AddressSanitizer BMON_SECS=$secs \
    ASAN_OPTIONS=exitcode=99:detect_leaks=0:abort_on_error=0:quarantine_size_mb=64:allocator_may_return_null=0 \
    "$V/target-asan/x86_64-unknown-linux-gnu/debug/c24" >"$V/target-asan/C24.out"
  rc=$?
  if [ $rc != 0 ]; then cat "$V/target-asan/C24.out"; exit $rc; fi
  export BMON_MERGE="$BMON_EVIDENCE"
  ;;
esac
build harness c24
exec "$CARGO_TARGET_DIR/debug/c24" "$@"

# sourced by run.sh: the command line tool itself, a shim to observe it, and the monitor
cli_build
build umon c27
exec "$CARGO_TARGET_DIR/debug/c27" "$@"

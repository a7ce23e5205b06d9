# sourced by run.sh: the command line tool itself, and the monitor
cli_build
build umon c28
exec "$CARGO_TARGET_DIR/debug/c28" "$@"

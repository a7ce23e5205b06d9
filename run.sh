#!/bin/bash
# ./run.sh C01 [--thorough | --replay FILE | --case N]
# Builds the monitor of one property against the current /repo working tree and runs it.
. "$(dirname "$0")/lib.sh"
id="$1"; shift
if [ "$1" = --thorough ]; then export VERIF_TIER=thorough; shift; fi
bin="$(echo "$id" | tr 'C' 'c')"
crate=harness
[ -e "$V/umon/src/bin/$bin.rs" ] && crate=umon
if [ -x "$V/checks/$id.sh" ]; then . "$V/checks/$id.sh" "$@"; exit; fi
build $crate "$bin"
exec "$CARGO_TARGET_DIR/debug/$bin" "$@"

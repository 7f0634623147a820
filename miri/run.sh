#!/bin/bash
# Runs twmiri under Miri; exit 99 if Miri reports undefined behaviour, otherwise as it comes.
cd "$(dirname "$0")" || exit 2
export CARGO_NET_OFFLINE=true RUSTFLAGS="-C target-cpu=x86-64-v3"
export MIRIFLAGS="-Zmiri-disable-isolation -Zmiri-symbolic-alignment-check -Zmiri-ignore-leaks"
err=$(mktemp)
cargo +nightly miri run --offline -q --target-dir target -- "$@" 2>"$err"; c=$?
cat "$err" >&2
if grep -q "Undefined Behavior" "$err"; then c=99; fi
rm -f "$err"
exit $c

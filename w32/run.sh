#!/bin/bash
# Runs the monitors in their 32-bit build, with a stack large enough for the deepest nesting they try
w=$(dirname "$0")
ulimit -s 1000000 2>/dev/null && set -- --stack-size=900000 "$w/run.mjs" "$@" || set -- "$w/run.mjs" "$@"
TW_W32="$w/target/wasm32-unknown-unknown/debug/tww32.wasm" exec node "$@"

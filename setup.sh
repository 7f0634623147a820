#!/bin/bash
cd "$(dirname "$0")" || exit 2
. ./lib.sh
build_w32; build_bare; build target --bin tw && build target-nogd --no-default-features --bin tw && build_cli && build_asan && build_miri && build_tsan

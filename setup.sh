#!/bin/bash
cd "$(dirname "$0")" || exit 1
. ./env.sh
build_main || exit 1
build_hook || exit 1
build_bins || exit 1
build_san tsan || exit 1
build_san asan || exit 1
build_miri || exit 1
echo setup done

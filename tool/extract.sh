#!/bin/bash
# extract.sh CONFIG OUT : dumps /repo's current headers (CONFIG: release | debug).
here=$(cd "$(dirname "$0")" && pwd)
repo=${SHARG_REPO:-/repo}
flags=(-resource-dir /usr/lib/llvm-18/lib/clang/18 -std=c++20 -I"$repo/include" -w)
[ "$1" = release ] && flags+=(-DNDEBUG)
exec "$here/../build/extract" "$repo/include/sharg/" "$2" "$here/../driver/driver.cpp" -- "${flags[@]}"

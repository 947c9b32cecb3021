#!/bin/bash
# Compiles demo.cpp against the library in /repo and runs it in a scratch directory.
here=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d) || exit 99
trap 'rm -rf "$T"' EXIT
g++ -std=c++11 -g -O0 -I/repo/include -I/repo/test -I/repo/src -I"$here" -DBOOST_TEST_DYN_LINK $DEMO_FLAGS "$here/demo.cpp" \
  /repo/test/mock_client_state.cpp /repo/test/mock_high_priority_service.cpp /repo/test/mock_storage_service.cpp /repo/test/test_utils.cpp \
  /repo/_build/src/libwsrep-lib.a -lboost_unit_test_framework -lpthread -ldl -Wl,--unresolved-symbols=ignore-in-object-files -no-pie -o "$T/demo" > "$T/log" 2>&1 || { cat "$T/log"; exit 0; }
cd "$T" && timeout 60 ./demo

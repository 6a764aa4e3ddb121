#!/bin/bash
# Build one checker crate; silent unless it fails.
cd "$(dirname "$0")/.." || exit 2
. tools/env.sh
mkdir -p target
if [ "$1" = ffi ]; then
  # the C library and the two drivers that call it
  LOG=target/build-ffi.log
  F="-std=c11 -Wall -Werror -Wno-nonnull -I /repo/crates/styx-ffi/include mc/ffi/driver.c target/debug/libstyx_ffi.a -lpthread -ldl -lm"
  if ! { (cd /repo && cargo build --offline --locked -p styx-ffi) &&
         clang -g -O1 -fsanitize=address,undefined $F -o target/ffi-asan &&
         clang -g -O1 -DCOUNT $F -o target/ffi-count; } >"$LOG" 2>&1; then
    tail -40 "$LOG" >&2
    exit 2
  fi
  exit 0
fi
if [ "$1" = fault ]; then
  # the fault injector alone
  clang -shared -fPIC -O1 -Wall -Werror mc/cli/fault.c -o target/fault.so -ldl || exit 2
  exit 0
fi
if [ "$1" = cli ]; then
  # the command line tool, programs with embedded schemas, and the fault injector
  LOG=target/build-cli.log
  if ! { (cd /repo && cargo build --offline --locked -p styx-cli) &&
         (cd mc/embedtool && cargo build --offline) &&
         clang -shared -fPIC -O1 -Wall -Werror mc/cli/fault.c -o target/fault.so -ldl; } >"$LOG" 2>&1; then
    tail -40 "$LOG" >&2
    exit 2
  fi
  exit 0
fi
case $1 in
  mc-*) D=mc/${1#mc-} ;;
  *) echo "unknown crate $1" >&2; exit 2 ;;
esac
LOG=target/build-$1.log
if ! (cd $D && cargo build --offline) >"$LOG" 2>&1; then
  tail -40 "$LOG" >&2
  exit 2
fi

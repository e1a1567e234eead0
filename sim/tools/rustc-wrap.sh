#!/bin/bash
# cargo build.rustc-wrapper: the library crates under test (sip_*) are compiled
# with SanitizerCoverage guards, which is where the simulated scheduler may
# preempt them. Nothing else is changed about how they are built.
rustc="$1"; shift
prev=""
for a in "$@"; do
  if [ "$prev" = "--crate-name" ]; then
    case "$a" in
      sip_hep) ;;
      sip_*)
        exec "$rustc" "$@" -C passes=sancov-module \
          -C llvm-args=-sanitizer-coverage-level=3 \
          -C llvm-args=-sanitizer-coverage-prune-blocks=0 \
          -C llvm-args=-sanitizer-coverage-trace-pc-guard ;;
    esac
    break
  fi
  prev="$a"
done
exec "$rustc" "$@"

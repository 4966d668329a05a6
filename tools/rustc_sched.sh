#!/bin/sh
# RUSTC_WRAPPER: only the library under test is instrumented: every atomic and memory access of it
# (std code inlined into it included) becomes a call of a __tsan_* function; the harness provides those
rustc="$1"; shift
case " $* " in
  *" --crate-name cosmian_abe_gpsw "*) exec "$rustc" "$@" -Zsanitizer=thread -Zexternal-clangrt -Cunsafe-allow-abi-mismatch=sanitizer ;;
  *" --crate-name abe_exec "*) exec "$rustc" "$@" -Cunsafe-allow-abi-mismatch=sanitizer ;;
  *) exec "$rustc" "$@" ;;
esac

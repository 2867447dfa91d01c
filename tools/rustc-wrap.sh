#!/bin/sh
# RUSTC_WRAPPER: $1 is rustc. The library crate, and only it, gets edge instrumentation.
rustc="$1"; shift
case " $* " in
*" --crate-name nom_sparql "*)
  exec "$rustc" "$@" --cfg nom_sparql_verif -Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=3 -Cllvm-args=-sanitizer-coverage-trace-pc-guard -Ccodegen-units=1 ;;
*) exec "$rustc" "$@" ;;
esac

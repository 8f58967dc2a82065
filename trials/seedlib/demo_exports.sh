#!/bin/bash
# Lists the functions each contract exports in a build for the chain, and compares them with what a node calls.
# The export code exists only when compiling for wasm, whose standard library is not installed: expand the macros as if for wasm.
set -u
repo="$PWD"
scratch="$(mktemp -d "${TMPDIR:-/tmp}/demo.XXXXXX")" || exit 99
trap 'rm -rf -- "$scratch"' EXIT
export RUSTUP_TOOLCHAIN=stable RUSTC_WRAPPER= RUSTC_BOOTSTRAP=1 CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
bad=0
for c in "factory:instantiate execute query migrate reply" "pair:instantiate execute query migrate reply" \
         "router:instantiate execute query migrate" "token:instantiate execute query"; do
  name="halo-${c%%:*}"
  cargo rustc --offline --manifest-path "$repo/Cargo.toml" -p "$name" --lib --target-dir "${DEMO_TARGET:-$repo/target}/exports" -- \
    -Zunpretty=expanded --cfg 'target_arch="wasm32"' -A explicit_builtin_cfgs_in_flags > "$scratch/$name.rs" 2> "$scratch/$name.err"
  [ -s "$scratch/$name.rs" ] || { cat "$scratch/$name.err"; exit 98; }
  for f in ${c#*:}; do
    grep -Eq "extern \"C\" fn $f\(" "$scratch/$name.rs" || { echo "$name does not export $f"; bad=1; }
  done
done
exit $bad

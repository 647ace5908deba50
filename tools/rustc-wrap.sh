#!/bin/bash
# RUSTC_WRAPPER for the IR build: for target crates keep metadata and LLVM IR only (no object
# code), and drop IR left by an earlier compilation of the same crate.
args=(); ir=0; out=""; name=""; extra=""; ty=""; prev=""
for a in "$@"; do [ "$a" = --emit=llvm-ir ] && ir=1; done
[ $ir = 1 ] || exec "$@"
for a in "$@"; do
  [ "$a" = --emit=dep-info,metadata,link ] && a=--emit=dep-info,metadata
  case "$prev" in --out-dir) out="$a";; --crate-name) name="$a";; --crate-type) ty="$a";; esac
  case "$a" in extra-filename=*) extra="${a#extra-filename=}";; -Cextra-filename=*) extra="${a#-Cextra-filename=}";; esac
  args+=("$a"); prev="$a"
done
[ -n "$out" ] && [ -n "$name" ] && rm -f "$out/$name$extra".*ll "$out/$name$extra.ll"
"${args[@]}" || exit $?
if [ -n "$out" ] && [ "$ty" = lib -o "$ty" = rlib ]; then : >> "$out/lib$name$extra.rlib"; fi
exit 0

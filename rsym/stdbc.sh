#!/bin/bash
# Extract the bitcode embedded in the toolchain's own standard library rlibs.
set -e
OUT=$1
SR=$(rustc +stable --print sysroot)/lib/rustlib/x86_64-unknown-linux-gnu
B=$SR/bin
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
cd "$T"
for c in core alloc std hashbrown compiler_builtins gimli addr2line object miniz_oxide rustc_demangle memchr panic_unwind unwind cfg_if std_detect adler2 libc; do
  for r in "$SR"/lib/lib$c-*.rlib; do
    [ -e "$r" ] || continue
    mkdir -p $c && (cd $c && "$B/llvm-ar" x "$r")
  done
done
for o in */*.o; do
  "$B/llvm-objcopy" --dump-section .llvmbc="$o.bc" "$o" /dev/null 2>/dev/null || true
done
find . -name '*.bc' -size +0 > list
"$B/llvm-link" $(cat list) -o "$OUT.tmp"
mv "$OUT.tmp" "$OUT"

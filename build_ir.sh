#!/bin/bash
# usage: build_ir.sh bc OUT.bc TARGET_DIR         compile /repo's working tree and the harness to one LLVM module
#        build_ir.sh ll IN.bc OUT.ll ENTRY,...     keep what the entries reach, optimise lightly, print as text
# SYMIR names the executor binary (it marks the functions that must stay calls).
set -e
DIR=$(cd "$(dirname "$0")" && pwd)
LL=$(rustc --print sysroot)/lib/rustlib/x86_64-unknown-linux-gnu/bin
case $1 in
bc)
    T=$3/debug
    # never trust timestamps: the library and the harness are compiled anew
    [ -d "$T" ] && find "$T" -maxdepth 2 \( -name 'rust-kpdb-*' -o -name '*kpdb-*' -o -name 'harness-*' \) -exec rm -rf {} +
    (cd "$DIR/harness" && CARGO_TARGET_DIR=$3 RUSTFLAGS="-C lto=fat -C embed-bitcode=yes" \
        cargo rustc -q --offline --locked --bin harness --features sym -- -C save-temps -C link-args=-Wl,--unresolved-symbols=ignore-all)
    BC=$(ls "$T"/deps/harness-*.lto.after-restriction.bc)
    cp "$BC" "$2"
    ;;
ll)
    "$LL/opt" -passes='internalize,globaldce' -internalize-public-api-list="$4,getrandom" "$2" -o "$3.a.bc"
    "$LL/llvm-dis" "$3.a.bc" -o "$3.a.ll"
    "$SYMIR" mark "$3.a.ll" "$3.b.ll"
    "$LL/opt" -passes='default<O1>' --vectorize-loops=false --vectorize-slp=false -S "$3.b.ll" -o "$3"
    rm -f "$3.a.bc" "$3.a.ll" "$3.b.ll"
    ;;
esac

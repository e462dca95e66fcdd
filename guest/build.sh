#!/bin/bash
# Builds the guest program for the VM against /repo/sdk; the ELF is guest/target/guest.elf.
cd "$(dirname "$0")" || exit 2
export PATH=$HOME/.cargo/bin:/usr/local/bin:/usr/bin:/bin:$PATH RUSTUP_TOOLCHAIN=nightly-2024-04-24 CARGO_NET_OFFLINE=true
export RUST_TARGET_PATH=/repo/.cargo CARGO_TARGET_DIR=$PWD/target
export RUSTFLAGS="-C passes=loweratomic -Zlocation-detail=none"
log=$(mktemp)
cargo build --profile guest --target riscv32im-mozak-mozakvm-elf --offline --locked \
    -Zbuild-std=alloc,core,compiler_builtins,std,panic_abort,proc_macro \
    -Zbuild-std-features=compiler-builtins-mem >"$log" 2>&1
rc=$?
[ $rc = 0 ] || grep -E -A12 '^error' "$log" | head -60
rm -f "$log"
[ $rc = 0 ] || exit 1
cp target/riscv32im-mozak-mozakvm-elf/guest/guest target/guest.elf

#!/bin/bash
# Recreates /verif/sim/vendor from the sandbox's cargo caches (run once by hand; the result is committed).
set -e
R=$HOME/.cargo/registry/cache
A=$R/index.crates.io-6f17d22bba15001f
B=$R/index.crates.io-1949cf8c6b5b557f
V=/verif/sim/vendor
mkdir -p $V
get() { # name-version
  local f=""
  [ -f $A/$1.crate ] && f=$A/$1.crate
  [ -z "$f" ] && [ -f $B/$1.crate ] && f=$B/$1.crate
  [ -z "$f" ] && { echo "missing $1"; return 1; }
  [ -d $V/$1 ] && return 0
  tar -C $V -xzf $f
  rm -rf $V/$1/tests $V/$1/benches $V/$1/examples $V/$1/fuzz $V/$1/.github $V/$1/src/tests.txt
  local sum=$(sha256sum $f | cut -d' ' -f1)
  echo "{\"files\":{},\"package\":\"$sum\"}" > $V/$1/.cargo-checksum.json
}
for c in "$@"; do get $c; done

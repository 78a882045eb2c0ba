#!/bin/bash
# Builds the harness against the working tree of /repo. Prints the path of the binary.
set -u
V=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
. /opt/vp/env.sh
T=$V/build/target
mkdir -p "$T/debug"
export CARGO_TARGET_DIR=$T CARGO_INCREMENTAL=0
# dependencies are taken from /repo's own build when it is there, which saves time only
if [ ! -e "$T/.seeded" ]; then
  for d in deps build .fingerprint; do
    [ -d /repo/target/debug/$d ] && cp -a /repo/target/debug/$d "$T/debug/" 2>/dev/null
  done
  touch "$T/.seeded"
fi
# the crate under test is always rebuilt
for f in "$T"/debug/.fingerprint/klavier-core-*; do
  case "$f" in "$V"/build/target/debug/.fingerprint/klavier-core-?*) rm -rf "$f";; esac
done
cd "$V/harness" || exit 2
cargo build --offline --locked > "$V/build/build.log" 2>&1 || { tail -60 "$V/build/build.log" >&2; exit 2; }
echo "$T/debug/vharness"

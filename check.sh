#!/bin/bash
# check.sh <property>: rebuild the simulator against /repo's working tree and run one property.
# Exit 0 held, 1 violation (with a VIOLATION line), 2 anything else.
set -u
here="$(cd "$(dirname "$0")" && pwd)"
cd "$here" || exit 2
export CARGO_NET_OFFLINE=true RUSTUP_TOOLCHAIN="${RUSTUP_TOOLCHAIN:-stable}"
export CARGO_TARGET_DIR="$here/target"
unset RUSTFLAGS CARGO_BUILD_RUSTFLAGS CARGO_ENCODED_RUSTFLAGS
mkdir -p "$here/target" || exit 2
bin=dvesim; opt=""
# C20 compares two builds of the library: its binary links both
[ "${1:-}" = C20 ] && { bin=dvesim-builds; opt="--features serial"; }
(
  # one build at a time; the crate under test is always recompiled (mtimes may be older than the cache)
  flock 9
  rm -rf "$here"/target/release/.fingerprint/dist-saver-* "$here"/target/release/.fingerprint/dvesim-*
  cd "$here/sim" && cargo build --release --offline $opt --bin $bin >"$here/target/build.log" 2>&1
) 9>"$here/target/.lock"
rc=$?
if [ $rc -ne 0 ]; then
  echo "check.sh: the simulator does not build against /repo (rc=$rc):" >&2
  tail -40 "$here/target/build.log" >&2
  exit 2
fi
[ "${1:-}" = build ] && exit 0
"$here/target/release/$bin" check "$1"

#!/bin/bash
# usage: check.sh PROPERTY quick|thorough [--replay FILE]
# Builds the checker against /repo's current working tree and runs one property.
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER=
unset RUSTFLAGS CARGO_TARGET_DIR CARGO_ENCODED_RUSTFLAGS CARGO_BUILD_RUSTFLAGS
here="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
prop="$1"; tier="${2:-quick}"
export MC_VERIF="$here"
cd "$here/mc" || exit 2
if ! cargo build --offline --locked > "$here/mc/build.log" 2>&1; then
  tail -40 "$here/mc/build.log"
  echo "check.sh: build failed" >&2
  exit 2
fi
shift 2 2>/dev/null
"$here/mc/target/debug/mc" "$prop" "$tier" "$@"
rc=$?
if [ $rc -ne 0 ] && [ $rc -ne 1 ]; then
  echo "check.sh: checker ended with $rc" >&2
  exit 2
fi
exit $rc

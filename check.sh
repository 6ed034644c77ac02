#!/bin/bash
# check.sh PROPERTY TIER: decides one property from the current source of /repo.
# The compiler type-checks the crate and the driver writes out its MIR; the analyser reads that.
here=$(cd "$(dirname "$0")" && pwd)
prop=$1
tier=${2:-quick}
. /opt/vp/env.sh 2>/dev/null
export VERIF_SEED=${VERIF_SEED:-1}
b=$here/build
mkdir -p "$b" "$here/evidence"
bash "$here/setup.sh" >"$b/setup.log" 2>&1 || { cat "$b/setup.log"; echo "check.sh: the analyser does not build"; exit 2; }
work=$(mktemp -d "$b/run.XXXXXX") || exit 2
trap 'rm -rf "$work"' EXIT
# Debug assertions are decided by C01; the other properties do not rest on them.
asserts=off
[ "$prop" = C01 ] && asserts=on
made=
if [ ! -f /repo/Cargo.lock ]; then cp "$here/tools/repo-Cargo.lock" /repo/Cargo.lock; made=1; fi
# cargo must not consider the crate itself fresh
rm -rf "$b"/target/debug/.fingerprint/rusty-git* "$b"/target/debug/build/rusty-git* "$b"/target/debug/incremental
(cd /repo && LD_LIBRARY_PATH=$(rustc +nightly --print sysroot)/lib MIRDUMP_CRATE=rusty_git MIRDUMP_OUT="$work/mir.json" MIRDUMP_ASSERTS=$asserts \
  RUSTC_WORKSPACE_WRAPPER="$b/mirdump" CARGO_TARGET_DIR="$b/target" cargo +nightly check --offline --lib) >"$work/cargo.log" 2>&1
rc=$?
[ -n "$made" ] && rm -f /repo/Cargo.lock
if [ $rc -ne 0 ] || [ ! -s "$work/mir.json" ]; then
  tail -30 "$work/cargo.log"
  echo "check.sh: /repo does not compile"
  exit 2
fi
"$b/sa" check "$prop" "$work/mir.json" "$tier" "$here/evidence/$prop.json" "$here/known-findings.txt"

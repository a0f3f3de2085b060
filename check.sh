#!/bin/bash
# check.sh build                 builds the simulator against /repo's working tree, in both profiles
# check.sh <property> [tier]     decides one property (tier: quick or thorough, default $VERIF_TIER or quick)
# check.sh replay FILE           replays a violation; exits 1 when it shows again
set -u
here=$(cd "$(dirname "$0")" && pwd)
export RUSTC_BOOTSTRAP=1          # the allocation error hook; nothing is installed for it
export CARGO_TARGET_DIR=$here/sim/target
unset RUSTC_WRAPPER RUSTC_WORKSPACE_WRAPPER CARGO_ENCODED_RUSTFLAGS CARGO_BUILD_TARGET SIM_ARENA
# the sources' content takes part in the fingerprint, so that no stale build is ever used
hash=$( (cd /repo && find . -path ./target -prune -o -path ./.git -prune -o -type f \( -name '*.rs' -o -name 'Cargo.toml' \) -print0 | sort -z | xargs -0 sha256sum; cd "$here/sim" && sha256sum Cargo.toml src/*.rs) | sha256sum | cut -c1-16)
export RUSTFLAGS="-A warnings --cfg src_$hash"
log=$here/sim/target/build.log
# the build with a hook before every load and store (see acc.rs), for the properties it helps to decide
with_acc=
build() {
  mkdir -p "$here/sim/target"
  (cd "$here/sim" && cargo build --offline --locked -q >"$log.dev" 2>&1) &
  local a=$!
  (cd "$here/sim" && cargo build --offline --locked -q --release --target-dir "$here/sim/target/r" >"$log.rel" 2>&1) &
  local b=$!
  local rc=0
  if [ -n "$with_acc" ]; then
    local s=-Cllvm-args=-sanitizer-coverage
    (cd "$here/sim" && CARGO_PROFILE_RELEASE_OPT_LEVEL=1 RUSTFLAGS="$RUSTFLAGS --cfg acc -Cpasses=sancov-module $s-level=1 $s-trace-loads $s-trace-stores -Clink-arg=-Wl,--wrap=memcpy,--wrap=memmove,--wrap=memset" \
      cargo build --offline --locked -q --release --target-dir "$here/sim/target/a" >"$log.acc" 2>&1) || rc=1
  fi
  wait $a; local ra=$?
  wait $b; local rb=$?
  if [ $rc -ne 0 ]; then
    cat "$log.acc" >&2
    echo "the build with the memory-access seam failed; going on without it" >&2
    with_acc=
  fi
  if [ $ra -ne 0 ] || [ $rb -ne 0 ]; then
    cat "$log.dev" "$log.rel" >&2
    echo "the simulator does not build against this tree" >&2
    exit 2
  fi
}
dev=$here/sim/target/debug/shard-sim
rel=$here/sim/target/r/release/shard-sim
acc=$here/sim/target/a/release/shard-sim
case "${1:-}" in
  build) with_acc=1; build ;;
  replay)
    [ $# -ge 2 ] || { echo "usage: check.sh replay FILE" >&2; exit 2; }
    if grep -q ' build=acc ' "$2"; then with_acc=1; fi
    build
    exec "$dev" replay --file "$2" --dev "$dev" --rel "$rel" ${with_acc:+--acc "$acc"} ;;
  C[0-9][0-9])
    case $1 in C08|C09|C10|C14|C24|C28) with_acc=1 ;; esac
    build
    exec "$dev" check --property "$1" --tier "${2:-${VERIF_TIER:-quick}}" --seed "${VERIF_SEED:-1}" --dev "$dev" --rel "$rel" ${with_acc:+--acc "$acc"} --root "$here" ;;
  *) sed -n 2,4p "$0"; exit 2 ;;
esac

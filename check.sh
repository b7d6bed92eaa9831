#!/bin/bash
# check.sh PROPERTY [options of the rv binary]: build from /repo's working tree and run.
cd "$(dirname "$0")" || exit 2
export VERIF_DIR=$PWD
export HOME=${HOME:-/root} PATH=/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export RUSTUP_TOOLCHAIN=nightly CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
export RUSTC_WRAPPER= CARGO_TARGET_DIR=$VERIF_DIR/harness/target
unset CARGO_ENCODED_RUSTFLAGS CARGO_BUILD_TARGET
export RUSTFLAGS="--cfg rawdio_verif" RUST_BACKTRACE=0
id=$1
log=$(mktemp)
trap 'rm -f "$log"' EXIT
# cargo goes by mtimes; a file put back with an old mtime must still be rebuilt
if [ -n "$id" ] && [ -d harness/target ]; then
  sums=harness/target/rv-sums
  new=$(find /repo/src /repo/Cargo.toml -type f -print0 | LC_ALL=C sort -z | xargs -0 sha256sum | sha256sum)
  if [ "$new" != "$(cat $sums 2>/dev/null)" ]; then
    rm -rf "$VERIF_DIR"/harness/target/release/.fingerprint/rawdio-*
    rm -rf "$VERIF_DIR"/miri/target/miri/*/debug/.fingerprint/rawdio-*
    echo "$new" > $sums
  fi
fi
if ! cargo build --release --offline --manifest-path harness/Cargo.toml >"$log" 2>&1; then
  tail -40 "$log"
  echo "BUILD FAILED"
  exit 2
fi
harness/target/release/rv "$@"
rc=$?
case $rc in
  132|134|135|136|139)
    mkdir -p replays
    echo "{\"property\": \"$id\", \"signature\": \"crash\", \"message\": \"the process died with status $rc\", \"replay\": \"./check.sh $*\"}" > "replays/$id-crash.json"
    echo "$id: the process died of signal $((rc - 128))"
    echo "VIOLATION property=$id replay=$VERIF_DIR/replays/$id-crash.json"
    exit 1 ;;
esac
if [ "$id" = C20 ] && [ $rc = 0 ] && [[ " $* " != *" --case "* ]]; then
  seed=${VERIF_SEED:-1}; tier=${VERIF_TIER:-quick}
  prev=; for a in "$@"; do
    [ "$prev" = --seed ] && seed=$a
    [ "$prev" = --tier ] && tier=$a
    prev=$a
  done
  python3 tools/miri_c20.py "$seed" "$tier"
  rc=$?
fi
exit $rc

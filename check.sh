#!/bin/bash
# check.sh ID [quick|thorough]   decides one property on /repo's working tree
# check.sh --build               builds only
# check.sh --replay FILE         re-executes a recorded violation
cd "$(dirname "$0")" || exit 2
export VERIF_DIR=$PWD
. /opt/vp/env.sh >&2
unset CARGO_PROFILE_DEV_DEBUG
export CARGO_INCREMENTAL=1
mkdir -p mc/target evidence replays
exec 9>mc/target/.lock
flock 9

sum() {
  { find /repo/contracts/sumtree-orderbook \( -name target -o -name .git \) -prune -o -type f \( -name '*.rs' -o -name Cargo.toml \) -print0 |
      sort -z | xargs -0 sha256sum
    find mc/src mc/Cargo.toml -type f -print0 | sort -z | xargs -0 sha256sum; } | sha256sum
}
build() {
  local now
  now=$(sum)
  # do not trust file times: anything built from other contents is rebuilt
  if [ "$now" != "$(cat mc/target/.sum 2>/dev/null)" ]; then
    rm -f mc/target/.sum
    (cd mc && cargo clean --release --offline -p sumtree-orderbook -p mc) >/dev/null 2>&1
  fi
  if (cd mc && cargo build --release --offline --features direct) >mc/target/build.log 2>&1; then
    :
  elif (cd mc && cargo build --release --offline) >mc/target/build2.log 2>&1; then
    echo "note: the price functions are not public as expected; checking through the entry points only" >&2
  else
    tail -n 60 mc/target/build2.log >&2
    echo "check.sh: /repo does not build" >&2
    return 1
  fi
  echo "$now" >mc/target/.sum
}
build || exit 2
flock -u 9
case "$1" in
  --build) exit 0 ;;
  --replay) exec mc/target/release/mc replay "$2" ;;
  *) exec mc/target/release/mc check "$1" "${2:-quick}" ;;
esac

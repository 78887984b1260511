#!/bin/bash
# check.sh <property> : builds what the property needs from /repo's working tree, then runs its check (cwd: /verif).
# check.sh --build    : builds everything (setup).
# check.sh --replay F : runs one replay file again.
cd "$(dirname "$0")" || exit 2
export RUSTUP_TOOLCHAIN=nightly-2025-04-15-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
export RAYON_NUM_THREADS=4 RUST_BACKTRACE=0
unset CARGO_TARGET_DIR RUSTFLAGS CARGO_ENCODED_RUSTFLAGS CARGO_BUILD_TARGET CARGO_PROFILE_RELEASE_STRIP
ROOT=$PWD
B=$ROOT/.build
mkdir -p "$B" evidence
run() { # log, command...
  local log=$1; shift
  "$@" >"$log" 2>&1 || { echo "error: build failed: $*"; tail -40 "$log"; return 2; }
}
driver() { (cd harness/driver && run "$B/driver.log" cargo build --release --offline --locked --target-dir "$B/driver"); }
shim() { # name, features
  (cd harness/shim && run "$B/$1.log" cargo build --release --offline --locked --features "$2" --target-dir "$B/$1")
}
X=common,avx,sse,nightly_avx512
lib() {
  case $1 in
    x) shim x $X ;;
    s) shim s common ;;
    e) shim e common,sse ;;
    a) shim a common,avx,sse ;;
    d) shim d avx,sse ;;
    r) shim r $X,rayon ;;
  esac
}
build() { # libs...
  local pids=() p ok=0
  driver & pids+=($!)
  for l in "$@"; do lib "$l" & pids+=($!); done
  for p in "${pids[@]}"; do wait "$p" || ok=2; done
  return $ok
}
args() {
  local s=""
  for l in "$@"; do s="$s${s:+,}$l=$B/$l/release/libyuvshim.so"; done
  echo "$s"
}
libs_of() {
  case $1 in
    C10) echo x r d a e s ;;
    *) echo x r ;;
  esac
}
case $1 in
  --build) build x r d a e s || exit 2; exit 0 ;;
  --replay)
    id=$(python3 -c 'import json,sys;print(json.load(open(sys.argv[1]))["property"])' "$2")
    build $(libs_of "$id") || exit 2
    exec "$B/driver/release/yuvpbt" "$(args $(libs_of "$id"))" replay "$2" ;;
  *)
    build $(libs_of "$1") || exit 2
    exec "$B/driver/release/yuvpbt" "$(args $(libs_of "$1"))" check "$1" ;;
esac

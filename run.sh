#!/bin/bash
# usage: run.sh ID   -- builds the check of one property against /repo's working tree and runs it.
# VERIF_TIER=quick|thorough, VERIF_CASE='<case>' replays one case.
ID=$1
export VERIF_DIR=/verif
cd /verif/mc || exit 2
export HOME=${HOME:-/root}
export PATH=/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:$PATH
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=0 CARGO_TERM_COLOR=never RUSTC_WRAPPER=
unset RUSTFLAGS
export CARGO_TARGET_DIR=/verif/target
bin=$(echo "$ID" | tr 'A-Z' 'a-z')
exec 9>/verif/target.lock; flock 9
log=/verif/build.$bin.log
feat=()
pkg=checks
# C20 is built in a workspace of its own, where the random number crate is replaced by a scripted one
[ "$ID" = C20 ] && { pkg=rng; cd /verif/rng || exit 2; }
# C03 is built against a copy of the library whose locks and atomics stop at a scheduler
if [ "$ID" = C03 ]; then
  pkg=sched; cd /verif/sched || exit 2
  ./prepare.sh || { echo "cannot copy the library"; exit 2; }
fi
[ "$ID" = C19 ] && [ "$VERIF_TIER" = thorough ] && feat=(--features wide)
# some checks run once more on the library as a user ships it: no debug assertions, wrapping arithmetic
plain=" C02 C04 C05 C06 C16 C24 C25 C26 C27 "
[ "$VERIF_TIER" = thorough ] && plain=" C01 C02 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 C15 C16 C18 C21 C22 C23 C24 C25 C26 C27 "
alt=
if [[ "$plain" == *" $ID "* ]]; then
  cargo build --offline --locked --profile plain -p "$pkg" --bin "$bin" >"${log%.log}.plain.log" 2>&1 &
  alt=$!
fi
if ! cargo build --offline --locked --release -p "$pkg" --bin "$bin" "${feat[@]}" >"$log" 2>&1; then
  if [ "$ID" = C19 ] && grep -q 'out/c19_[a-z]*\.rs' "$log" &&
    cargo build --offline --locked --release -p mc_core >/dev/null 2>&1; then
    # the library builds, but what the derive macro makes of some struct definition does not compile
    mkdir -p /verif/replays
    replay=/verif/replays/C19-compile.log
    grep -A8 '^error' "$log" | head -200 >"$replay"
    head -30 "$replay"
    echo "VIOLATION property=C19 replay=$replay"
    exit 1
  fi
  tail -40 "$log"; echo "build failed"; exit 2
fi
if [ -n "$alt" ]; then
  if ! wait "$alt"; then
    tail -40 "${log%.log}.plain.log"; echo "build failed"; exit 2
  fi
  export MC_ALT_EXE=/verif/target/plain/$bin
fi
rm -f "$log" "${log%.log}.plain.log"
flock -u 9
exec 9>&-
exec /verif/target/release/$bin

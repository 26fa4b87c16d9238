#!/bin/bash
# check.sh PROPERTY [quick|thorough]        run a check against /repo's working tree
# check.sh PROPERTY replay FILE             re-run the one case written down in FILE
cd "$(dirname "$0")" || exit 2
export VERIF_DIR=$PWD
export HOME=/root PATH="/root/.cargo/bin:/usr/local/cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin"
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER= CARGO_INCREMENTAL=0
unset RUSTFLAGS RUSTDOCFLAGS CARGO_ENCODED_RUSTFLAGS CARGO_BUILD_TARGET
P=$1; T=${2:-${VERIF_TIER:-quick}}
case $P in
  P01|P02|P03|P04|P05) crate=core bin=mcc ;;
  P06|P07) crate=core bin=mce ;;
  P08) crate=core bin=mcs ;;
  P09|P10|P11) crate=core bin=mct ;;
  P14) crate=core bin=mca ;;
  P15) crate=core bin=mcx ;;
  P16|P17) crate=core bin=mcl ;;
  P18) crate=core bin=mcw ;;
  P20|P21) crate=core bin=mcr ;;
  P22) crate=core bin=mcq ;;
  P23) crate=core bin=mcp ;;
  P24) crate=core bin=mcf ;;
  P19) crate=rx bin=mc-rx ;;
  P12|P13) crate=io bin=mcd ;;
  *) echo "unknown property $P" >&2; exit 2 ;;
esac
export CARGO_TARGET_DIR=$PWD/harness/target
# cargo judges freshness by modification time; make sure the library is rebuilt from the tree as it is
[ -d "$CARGO_TARGET_DIR/release/.fingerprint" ] && find "$CARGO_TARGET_DIR/release/.fingerprint" -maxdepth 2 -path '*/combine-*/dep-*' -exec touch -d 2000-01-01 {} +
mkdir -p evidence
log=evidence/$P.build.log
if ! cargo build --release --offline --locked --manifest-path harness/$crate/Cargo.toml --bin $bin >"$log" 2>&1; then
  tail -40 "$log" >&2
  # the library builds, but the documented ways to call it in this harness do not
  if [ $crate = io ] && grep -q 'could not compile `mc-io`' "$log"; then
    echo "VIOLATION property=$P replay=$PWD/$log"
    exit 1
  fi
  echo "check error: the harness does not build against /repo" >&2
  exit 2
fi
exec "$CARGO_TARGET_DIR/release/$bin" "$P" "$T" ${3:+"$3"}

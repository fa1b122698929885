#!/bin/bash
# bash check.sh PROPERTY TIER   (in /verif) builds the monitors against /repo's working tree and runs one property.
# exit 0: held on everything explored; 1: VIOLATION; 2: no answer
export PATH=/root/.cargo/bin:/usr/local/bin:/usr/bin:/bin
export HOME=/root CARGO_HOME=/root/.cargo CARGO_NET_OFFLINE=true RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export LAWMON_SRC=/repo/src
export CARGO_TERM_COLOR=never RUSTC_WRAPPER= RUSTFLAGS= CARGO_TARGET_DIR=/verif/harness/target
cd "$(dirname "$(realpath "$0")")" || exit 2
PROP="$1"
TIER="${2:-${VERIF_TIER:-quick}}"
SEED="${VERIF_SEED:-1}"
mkdir -p evidence/replay "$CARGO_TARGET_DIR"
exec 9> "$CARGO_TARGET_DIR/.check.lock"
flock 9
# Cargo goes by mtime and would miss a file put back with an old one.
rm -rf "$CARGO_TARGET_DIR"/debug/.fingerprint/japanese_law_xml_schema-*
if ! cargo build --offline --manifest-path harness/Cargo.toml > "$CARGO_TARGET_DIR/build.log" 2>&1; then
  tail -n 40 "$CARGO_TARGET_DIR/build.log"
  echo "INCONCLUSIVE: the monitors do not build against /repo"
  exit 2
fi

# P20 also runs under ThreadSanitizer, and in the thorough tier under Miri. Where these cannot be built or do not
# tell a race from its absence, the stages say so in the evidence and judge nothing.
NIGHTLY=nightly
if [ "$PROP" = P20 ]; then
  T="$CARGO_TARGET_DIR/tsan"
  BIN="$T/x86_64-unknown-linux-gnu/debug/lawmon"
  rm -rf "$T"/x86_64-unknown-linux-gnu/debug/.fingerprint/japanese_law_xml_schema-*
  if RUSTUP_TOOLCHAIN=$NIGHTLY CARGO_TARGET_DIR="$T" RUSTFLAGS=-Zsanitizer=thread CARGO_PROFILE_DEV_DEBUG=line-tables-only timeout 500 \
      cargo build --offline -Zbuild-std --config 'profile.dev.package.japanese_law_xml_schema.opt-level=0' --target x86_64-unknown-linux-gnu --manifest-path harness/Cargo.toml > "$CARGO_TARGET_DIR/tsan.log" 2>&1 \
     && { for i in 1 2 3 4 5 6; do "$BIN" probe race 2>&1 | grep "data race"; done; } | grep -q "data race" && "$BIN" probe norace > "$CARGO_TARGET_DIR/norace.log" 2>&1 && ! grep -q ThreadSanitizer "$CARGO_TARGET_DIR/norace.log"; then
    export LAWMON_TSAN="$BIN"
  else
    echo "ThreadSanitizer is not available here"
  fi
  if [ "$TIER" = thorough ]; then
    rm -rf "$CARGO_TARGET_DIR"/miri/miri/x86_64-unknown-linux-gnu/debug/.fingerprint/japanese_law_xml_schema-*
    if timeout 900 bash miri.sh 1 probe norace > "$CARGO_TARGET_DIR/miri.log" 2>&1; then
      export LAWMON_MIRI=/verif/miri.sh
    else
      echo "Miri is not available here"
    fi
  fi
fi
flock -u 9
[ "$PROP" = setup ] && exit 0
exec "$CARGO_TARGET_DIR/debug/lawmon" run "$PROP" "$TIER" "$SEED"

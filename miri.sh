#!/bin/bash
# miri.sh SEED ARG..   runs the monitors under Miri with the given scheduler seed
SEED="$1"
shift
export CARGO_HOME=/root/.cargo CARGO_NET_OFFLINE=true RUSTUP_TOOLCHAIN=nightly RUSTFLAGS= CARGO_TARGET_DIR=/verif/harness/target/miri
export MIRIFLAGS="-Zmiri-disable-isolation -Zmiri-seed=$SEED"
exec cargo miri run --quiet --offline --manifest-path /verif/harness/Cargo.toml -- "$@"

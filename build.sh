#!/bin/bash
# Builds /repo's current working tree into /verif/build/target (debug assertions
# on, as in the repository's own build; dependencies optimised).
set -e
cd /repo
export CARGO_TARGET_DIR=/verif/build/target CARGO_NET_OFFLINE=true
export RUSTUP_TOOLCHAIN=${VERIF_TOOLCHAIN:-stable-x86_64-unknown-linux-gnu}
exec cargo build --offline --locked -q --bins --config 'profile.dev.package."*".opt-level=2' --config 'profile.dev.debug=0' "$@"

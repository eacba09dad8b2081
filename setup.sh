#!/bin/bash
# builds the extraction tool and the harness's dependencies; every check also builds what it finds missing
export CARGO_NET_OFFLINE=true HOME=/root CARGO_HOME=/root/.cargo RUSTC_WRAPPER=
unset RUSTFLAGS CARGO_TARGET_DIR
cd "$(dirname "$0")"
(cd xtract && cargo build --release --offline) || exit 1
(cd harness && cargo build --offline) || echo "harness does not build against the current tree; checks will say so"
exit 0

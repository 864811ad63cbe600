#!/bin/bash
# builds the extraction tool and the replay engine (checks rebuild both from the current sources)
cd "$(dirname "$0")" || exit 1
for c in extract replay; do
  (cd $c && RUSTFLAGS= CARGO_TARGET_DIR=../target/$c cargo build --release --offline) || exit 1
done

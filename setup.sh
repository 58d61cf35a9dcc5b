#!/bin/bash
# Builds the native obligations, the extractor and Kani's dependency artifacts from the committed files. Checks rebuild what changed.
cd "$(dirname "$0")" || exit 1
B=$PWD/build
mkdir -p "$B" evidence
(cd kani && CARGO_TARGET_DIR=$B/native cargo build --offline) || exit 1
CARGO_TARGET_DIR=$B/extract cargo build -q --offline --manifest-path extract/Cargo.toml || exit 1
(cd kani && cargo kani --target-dir "$B/kani" --output-format=terse --exact --harness c14::size::u8) >/dev/null 2>&1
exit 0

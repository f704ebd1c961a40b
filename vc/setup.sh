#!/bin/bash
# builds the extraction tool, the native harness and the two programs (the checks build them again when they are missing)
cd "$(dirname "$0")/.." || exit 1
V=$PWD
(cd tool && CARGO_TARGET_DIR=$V/.build/tool cargo build --offline -q) || exit 1
(cd harness && CARGO_TARGET_DIR=$V/.build/harness RUSTFLAGS="--cfg chromaprint_verif" CHROMAPRINT_VERIF_HOOKS=$V/hooks cargo build --offline --release -q) || exit 1
(cd "$V/../repo" && CARGO_TARGET_DIR=$V/.build/fpcalc CARGO_PROFILE_DEV_OPT_LEVEL=1 cargo build --offline -q -p fpcalc -p compare) || exit 1
exit 0

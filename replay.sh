#!/bin/bash
# replay.sh BIN FAMILY "TAPE": run one case of the bounded search against /repo's current tree
cd "$(dirname "$0")/search" || exit 2
CARGO_TARGET_DIR="$(dirname "$PWD")/build/target" cargo build --offline --quiet --bin "$1" || exit 2
exec ../build/target/debug/"$1" replay "$2" "$3"

#!/bin/bash
# build the bounded-search crate once (every check rebuilds it incrementally from /repo's tree)
cd "$(dirname "$0")/search" && CARGO_TARGET_DIR="$(dirname "$PWD")/build/target" cargo build --offline --quiet --bins
which verus > /dev/null

#!/bin/bash
set -e
cd "$(dirname "$0")"
for c in mc/*/; do
    [ "$c" = mc/common/ ] && continue
    (cd "$c" && cargo build --release --offline)
done
# C16 and C20 compile generated code; checks reuse it as long as nothing it depends on changes.
MC_ROOT=$PWD target/release/mc-gen prepare

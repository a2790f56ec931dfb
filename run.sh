#!/bin/bash
# usage: run.sh <crate>[,<crate>...] <property> [args...]
# Builds the harness crates against /repo's current working tree and runs one check. Several crates
# are run one after the other; the check fails as soon as one of them does.
set -u
cd "$(dirname "$0")" || exit 3
export MC_ROOT="$PWD"
IFS=, read -ra crates <<<"$1"; shift
mkdir -p target evidence replays
# A quick check has to answer within 900 s, however slow the machine is.
[[ " $* " == *thorough* || ${VERIF_TIER:-quick} == thorough ]] || export MC_DEADLINE=$(($(date +%s) + ${MC_BUDGET:-780}))
for crate in "${crates[@]}"; do
    log="target/build-$crate.log"
    if ! (cd "mc/$crate" && cargo build --release --offline) >"$log" 2>&1; then
        tail -40 "$log" >&2
        echo "build of mc-$crate failed" >&2
        exit 3
    fi
done
for ((i = 0; i < ${#crates[@]}; i++)); do
    # Later crates add to what the first one has recorded.
    MC_MERGE=$( ((i == 0)) || echo "${crates[i]}") "target/release/mc-${crates[i]}" "$@" || exit
done

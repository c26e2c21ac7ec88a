#!/bin/bash
# check.sh build                 build the simulator from /repo's working tree
# check.sh <property> [tier]     decide one property (0 held, 1 violation, other: error)
# check.sh replay <file>         re-execute a recorded violation
cd "$(dirname "$0")" || exit 2
export SIM_ROOT="$PWD"
export CARGO_NET_OFFLINE=true
log=$(mktemp) || exit 2
if ! (cd sim && cargo build --release --offline --locked) >"$log" 2>&1; then
    echo "simulator does not build against /repo:" >&2
    grep -A12 '^error' "$log" >&2 || cat "$log" >&2
    rm -f "$log"
    exit 2
fi
rm -f "$log"
case "$1" in
    build) exit 0 ;;
    replay) exec sim/target/release/sim replay "$2" ;;
    *) exec sim/target/release/sim check "$1" --tier "${2:-${VERIF_TIER:-quick}}" --seed "${VERIF_SEED:-1}" ;;
esac

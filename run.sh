#!/bin/bash
# run.sh PROPERTY [quick|thorough]
# Builds the simulator against /repo's current working tree and runs one check.
set -u
here="$(cd "$(dirname "$0")" && pwd)"
prop="$1"
tier="${2:-quick}"
cd "$here/sim" || exit 2
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
log="$(mktemp)"
trap 'rm -f "$log"' EXIT
# The checks of one part don't need the others to compile
case "$prop" in
    C13) sets=("" fuse/absent) ;;
    C15) sets=("" wb/plain) ;;
    *) sets=("" fuse/absent wb/plain fuse/absent,wb/plain) ;;
esac
built=
for f in "${sets[@]}"; do
    if cargo build --offline --locked ${f:+--features "$f"} >"$log" 2>&1; then built=1; break; fi
    [ -z "$f" ] && grep -A12 -E '^error' "$log" | head -80 >&2
done
if [ -z "$built" ]; then
    echo "BUILD FAILED: the simulator does not build against /repo" >&2
    exit 4
fi
DST_VERIF="$here" exec "$here/sim/target/debug/dst" check "$prop" --tier "$tier" --seed "${VERIF_SEED:-1}"

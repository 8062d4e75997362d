#!/bin/sh
# Builds the simulator and runs one property's check. Usage: check.sh ID [quick|thorough]
here=$(cd "$(dirname "$0")" && pwd)
: "${PASIM_ROOT:=$here}"
export PASIM_ROOT
[ -n "$2" ] && VERIF_TIER=$2 && export VERIF_TIER
export CARGO_NET_OFFLINE=true
(cd "$here/sim" && cargo build --release --offline -q --target-dir "$here/build/sim") >&2 || exit 2
exec "$here/build/sim/release/pasim" check "$1"

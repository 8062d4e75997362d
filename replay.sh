#!/bin/sh
# Replays a recorded violation exactly. Usage: replay.sh FILE [verbose]
here=$(cd "$(dirname "$0")" && pwd)
: "${PASIM_ROOT:=$here}"
export PASIM_ROOT CARGO_NET_OFFLINE=true
(cd "$here/sim" && cargo build --release --offline -q --target-dir "$here/build/sim") >&2 || exit 2
exec "$here/build/sim/release/pasim" replay "$@"

#!/bin/sh
# Builds the simulator (the checks build the guests from /repo themselves).
here=$(cd "$(dirname "$0")" && pwd)
export CARGO_NET_OFFLINE=true
cd "$here/sim" && cargo build --release --offline -q --target-dir "$here/build/sim"

#!/bin/bash
# build.sh comp|full: lays the workspace out from /repo's working tree and builds the harness
set -e
kind=$1
. /verif/sim/env.sh
mkdir -p /verif/.build
exec 9>/verif/.build/lock-$kind
flock 9
python3 /verif/sim/layout.py "$kind" "/verif/.build/$kind"
cd "/verif/.build/$kind"
cargo build -p "$kind" --offline 9>&- 2>"/verif/.build/build-$kind.log" || { tail -60 "/verif/.build/build-$kind.log" >&2; exit 3; }

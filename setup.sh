#!/bin/bash
# builds the simulators once, so that each check only builds what changed
cd /verif
mkdir -p evidence replays
bash sim/build.sh comp || exit 1
[ -d sim/full/src ] && { bash sim/build.sh full || exit 1; }
exit 0

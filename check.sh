#!/bin/bash
# check.sh ID [--seed N --tier T --runs N ...]: builds from /repo's working tree, then searches
# check.sh --replay FILE: runs one replay file again
cd /verif
kind_of() { case "$1" in C0*) echo comp;; *) echo full;; esac; }
if [ "$1" = --replay ]; then
  id=$(python3 -c 'import json,sys; print(json.load(open(sys.argv[1]))["property"])' "$2") || exit 2
  kind=$(kind_of "$id")
  bash sim/build.sh "$kind" || exit 3
  exec ".build/target/debug/$kind" replay --file "$2"
fi
id=$1; shift
kind=$(kind_of "$id")
bash sim/build.sh "$kind" || exit 3
mkdir -p evidence replays
scratch=$(mktemp -d /verif/.build/scratch.XXXXXX) || exit 3
trap 'rm -rf -- "$scratch"' EXIT
".build/target/debug/$kind" check --property "$id" --seed "${VERIF_SEED:-1}" --tier "${VERIF_TIER:-quick}" \
  --jobs "$(nproc)" --scratch "$scratch" --replays /verif/replays --known /verif/known-findings.txt \
  --evidence "/verif/evidence/$id.json" "$@"
exit $?

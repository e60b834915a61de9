#!/bin/bash
# bash run.sh <property> : build the harness against /repo's working tree and check one property.
set -u
cd "$(dirname "$0")"
case "$1" in
    V01) c=licence b=licence ;;
    P0*) c=largo b=largo-check ;;
    *) c=harness b=harness ;;
esac
bash ./build.sh $c || { echo "the harness does not build"; exit 3; }
exec env VERIF_DIR="$PWD" ./target/debug/$b check "$1"

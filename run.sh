#!/bin/bash
# run.sh ID: rebuild the harness of property ID from /repo's working tree and run its check.
# run.sh replay FILE: rebuild, then replay a violation.
cd /verif/sim || exit 3
. ./env.sh
case "$1" in
replay) id=$(sed -n 's/^ *"property": *"\(.*\)",*/\1/p' "$2" | head -1); set -- replay "$(realpath "$2")" ;;
*) id=$1; set -- check "$1" ;;
esac
case "$id" in
M*) bin=mptsim ;;
E* | D*) bin=evmsim ;;
*) echo "unknown property $id" >&2; exit 3 ;;
esac
cargo build -q -p $bin 2>/tmp/verif-build-$$.log || { tail -60 /tmp/verif-build-$$.log >&2; rm -f /tmp/verif-build-$$.log; exit 3; }
rm -f /tmp/verif-build-$$.log
exec /verif/target/debug/$bin "$@"

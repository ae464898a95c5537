#!/bin/bash
# Builds every harness once, offline.
cd /verif/sim || exit 3
. ./env.sh
cargo build -q --workspace || exit 3
exit 0

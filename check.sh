#!/bin/bash
# Runs one check: builds the simulator from /repo's current sources, then searches. Usage: check.sh PROPERTY [quick|thorough]
cd /verif/sim || exit 2
tier=${2:-${VERIF_TIER:-quick}}
mkdir -p /verif/build /verif/evidence
if ! flock /verif/build/.lock make -s -j8 > /verif/build/make.log 2>&1; then tail -30 /verif/build/make.log; echo "ERROR: the simulator does not build"; exit 2; fi
exec /verif/build/sim check "$1" --seed "${VERIF_SEED:-1}" --tier "$tier"

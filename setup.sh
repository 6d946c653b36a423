#!/bin/bash
mkdir -p /verif/build /verif/evidence
make -s -j8 -C /verif/sim

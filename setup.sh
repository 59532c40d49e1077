#!/bin/bash
# Build the simulators once; every check rebuilds what has changed.
cd "$(dirname "$0")" || exit 1
python3 sim/simbuild.py libsim calcsim

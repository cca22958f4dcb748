#!/bin/bash
# builds the compiler driver and warms the dependency build of /repo used by the checks; offline
set -e
cd "$(dirname "$0")"
python3 -m engine.dump
python3 -c "from engine import witness; witness.run()" >/dev/null

#!/bin/bash
# Builds the extension modules of /repo and checks that the simulator starts.
set -e
cd "$(dirname "$0")/.."
bash /opt/vp/build.sh > /dev/null
mkdir -p evidence replays
PYTHONPATH="$PWD:/repo" PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python -c "import thinc.api, torch, sim.core, sim.zoo; print('simulator ready')"

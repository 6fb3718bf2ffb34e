#!/bin/bash
# Nothing persists between runs: every check builds the simulator and its harness from /repo's tree.
set -e
command -v g++ >/dev/null; command -v python3 >/dev/null
python3 -c 'import json;json.load(open("/verif/sim/checks.json"))'

#!/bin/bash
# Nothing to build: the checks import artemis from the working tree of /repo with the interpreter below.
here="$(cd "$(dirname "$0")" && pwd)"
cd "$here" || exit 1
py=/opt/venv/bin/python
[ -x "$py" ] || py=python3
mkdir -p evidence replays
scratch="$(mktemp -d /tmp/artemis-mc.XXXXXXXX)"
trap 'rm -rf "$scratch"' EXIT
PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg MPLCONFIGDIR="$scratch" "$py" -B -c "
import mc.env
from mc.run import registry
from mc.checks import REGISTRY
for p in REGISTRY: registry(p)
print('ready:', len(REGISTRY), 'checks')"

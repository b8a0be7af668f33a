#!/bin/bash
# nothing to build: the specifications are checked and the code is imported by each check
cd "$(dirname "$0")" || exit 1
test -f /opt/veriftools/tla/tla2tools.jar && /opt/venv/bin/python -c 'import numpy, scipy' && mkdir -p evidence replays

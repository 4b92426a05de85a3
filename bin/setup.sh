#!/bin/bash
# Nothing to install: every check builds what it needs from /repo and /verif. This verifies that the tools are there.
set -e
cd "$(dirname "$0")/.."
command -v g++ ninja java python3 >/dev/null
test -f /opt/veriftools/tla/tla2tools.jar
python3 -c "import sys; sys.path.insert(0, 'bin'); import checks; print(len(checks.CHECKS), 'checks registered')"

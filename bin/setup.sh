#!/bin/bash
# Nothing to build: the simulator is Python, run by the installed Jython.
set -e
cd "$(dirname "$0")/.."
test -x /opt/py2/bin/jython
python3 -c "import json; json.load(open('MANIFEST.json'))"

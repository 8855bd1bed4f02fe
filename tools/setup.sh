#!/bin/bash
# Offline set-up: nothing is built; checks that the toolchain is there and the specification parses.
set -e
cd "$(dirname "$0")/.."
mkdir -p evidence/replays
java -version >/dev/null 2>&1
test -f /opt/veriftools/tla/tla2tools.jar
python3 -c "import json; json.load(open('MANIFEST.json'))"
echo ok

#!/bin/bash
# Everything is compiled by the checks themselves from /repo's working tree; this only makes sure the tools are there.
set -e
cd "$(dirname "$0")"
command -v g++ java python3 >/dev/null
test -f /opt/veriftools/tla/tla2tools.jar
test -f /opt/veriftools/tla/CommunityModules-deps.jar
python3 -c 'import sys; sys.path.insert(0, "lib"); import registry'

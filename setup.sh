#!/bin/sh
# Nothing has to be built ahead of the checks; this makes sure that the tools they need are there.
set -e
cd "$(dirname "$0")"
test -x /opt/venv/bin/python
java -version 2>/dev/null
test -f /opt/veriftools/tla/tla2tools.jar
test -f /opt/veriftools/tla/CommunityModules-deps.jar
mkdir -p evidence

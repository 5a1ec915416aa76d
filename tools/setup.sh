#!/bin/bash
# Nothing is installed: confirms that the pinned tools are there and that every module parses.
set -e
here=$(cd "$(dirname "$0")/.." && pwd)
cd "$(mktemp -d)"
cp "$here"/spec/*.tla .
for m in *.tla; do
  java -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar tla2sany.SANY "$m" > sany.log 2>&1 || { cat sany.log; exit 1; }
done
test -x /opt/venv/bin/python
rm -rf "$PWD"

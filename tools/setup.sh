#!/bin/bash
# Nothing to build: checks the tools and parses every specification.
set -e
cd "$(dirname "$0")/.."
mkdir -p evidence
cd spec
for m in *.tla; do
  java -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar tla2sany.SANY "$m" >/tmp/sany.$$ 2>&1 || { cat /tmp/sany.$$; exit 1; }
done
rm -f /tmp/sany.$$
echo ok

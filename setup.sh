#!/bin/bash
# nothing to build: parse the specifications once so that a broken toolchain shows here
cd "$(dirname "$0")/spec" || exit 2
CP=/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar
for m in *.tla; do
  java -cp "$CP" tla2sany.SANY "$m" >/tmp/sany.$$ 2>&1 || { cat /tmp/sany.$$; rm -f /tmp/sany.$$; exit 1; }
done
rm -f /tmp/sany.$$
/opt/venv/bin/python -c 'import sys; sys.path.insert(0, "/repo/src"); import diwire'

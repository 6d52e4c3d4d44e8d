#!/bin/sh
# Nothing to install: parse the specifications so that a broken one is
# noticed here, and make the scratch directories.
cd "$(dirname "$0")/.." || exit 1
mkdir -p build/vcache build/replay evidence
cd spec || exit 1
for m in *.tla; do
  java -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar tla2sany.SANY "$m" > ../build/sany.log 2>&1 || { cat ../build/sany.log; exit 1; }
done
echo "specifications parse"

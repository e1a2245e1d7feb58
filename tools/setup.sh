#!/bin/bash
# Nothing is kept between runs; this only shows that the toolchain works here.
set -eu
cd "$(dirname "$0")/.."
mkdir -p .work evidence
java -version 2>&1 | head -1
g++ --version | head -1
d=$(mktemp -d)
cp spec/*.tla "$d"
cd "$d"
for m in *.tla; do
  java -Djava.io.tmpdir="$d" -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar tla2sany.SANY "$m" > out.txt 2>&1 \
    || { echo "$m does not parse"; tail -20 out.txt; rm -rf "$d"; exit 1; }
done
rm -rf "$d"
echo ready

#!/bin/bash
# Nothing is kept between runs: checks build what they need from /repo in a scratch directory. This only makes sure the tools are there.
set -e
cd "$(dirname "$0")/.."
command -v java javac g++ make python3 >/dev/null
test -f /opt/veriftools/tla/tla2tools.jar
mkdir -p evidence
t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
javac -nowarn -cp /opt/veriftools/tla/tla2tools.jar -d "$t/cls" java/slav/*.java
echo setup ok

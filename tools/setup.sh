#!/bin/bash
# Nothing to compile: check that the specification parses and the tools run.
set -e
cd "$(dirname "$0")/.."
mkdir -p evidence
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
cd spec; for f in *.tla; do
  java -Djava.io.tmpdir="$T" -DTLA-Library="$PWD/exchanges" -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar tla2sany.SANY "$f" >"$T/out" 2>&1 || { cat "$T/out"; exit 1; }
done
cd /repo && PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python -c 'import trading_calendars'

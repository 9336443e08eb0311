#!/bin/bash
# Nothing to build: chumpy is imported from /repo's working tree, TLC runs the specification directly.
cd "$(dirname "$0")" || exit 1
mkdir -p evidence
test -x /opt/pypyvenv/bin/python && command -v java >/dev/null

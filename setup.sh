#!/bin/sh
# Everything is built by each check from /repo's working tree; this only checks the tools are there.
set -e
cd "$(dirname "$0")"
command -v python3 gcc tlc >/dev/null
mkdir -p evidence
python3 -m compileall -q lib >/dev/null 2>&1 || true
exit 0

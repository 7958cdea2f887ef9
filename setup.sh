#!/bin/bash
# Nothing to build ahead of time: every check generates and compiles what it needs from /repo.
set -e
command -v gcc >/dev/null && test -x /opt/venv/bin/python && test -d /repo/nrpy
mkdir -p "$(dirname "$0")/evidence"

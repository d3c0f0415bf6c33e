#!/bin/sh
# nothing to build ahead of time: every check imports /repo's working tree directly
mkdir -p "$(dirname "$0")/evidence"
exec /opt/venv/bin/python -c 'import numpy, scipy'

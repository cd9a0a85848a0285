#!/bin/bash
# Checks that what the checks need is there; they build the simulated system themselves.
set -e
cd "$(dirname "$0")"
d=$(mktemp -d)
trap 'rm -rf "$d"' EXIT
gcc -O1 -shared -fPIC -Wall -o "$d/simfs.so" simfs.c -ldl
/opt/venv/bin/python -c 'import numpy, scipy, tables'

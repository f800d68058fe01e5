#!/bin/sh
# builds the symbolic engine and checks its expression simplifier
set -e
cd "$(dirname "$0")"
make -s -C engine

#!/bin/sh
# builds the symbolic executor (engine/) from the committed sources
cd "$(dirname "$0")" && make -s -j4 -C engine

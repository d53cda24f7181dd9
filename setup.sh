#!/bin/bash
# builds the symbolic executor (the harnesses are compiled by each check, from /repo's current tree)
cd "$(dirname "$0")" && mkdir -p build evidence && make -C engine -s -j8

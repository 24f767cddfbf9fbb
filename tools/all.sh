#!/bin/bash
# all.sh [options]: runs every check one after the other
cd "$(dirname "$0")/.."
for f in props/C*.cc props/C*.rb; do i=$(basename ${f%.*}); ./run.sh $i "$@" 2>&1 | tail -8 | cut -c1-600; done

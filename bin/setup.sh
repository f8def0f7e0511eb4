#!/bin/bash
# build every simulator
cd "$(dirname "$0")/.."
set -e
for s in sim/*/Makefile; do s=${s#sim/}; bin/build.sh ${s%/Makefile}; done

#!/bin/bash
# builds harness groups: tools/build.sh group...
cd "$(dirname "$0")/.." && exec python3 vlib/sxbuild.py "${@:-flow}" 2>&1 | tail -30

#!/bin/bash
# Warms the Go build cache for the instrumented standard library; nothing else
# is needed, every check builds from /repo's working tree.
cd "$(dirname "$0")" && VERIF_BUILD_ONLY=1 ./run.sh C01

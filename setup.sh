#!/bin/bash
# Builds everything once from the committed files, to fail early and warm the build cache.
set -eu
verif=$(cd "$(dirname "$0")" && pwd)
for p in C01 C03; do
  MC_BUILD_ONLY=1 bash "$verif/run.sh" "$p"
done

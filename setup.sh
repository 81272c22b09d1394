#!/bin/bash
# Compiles everything once so that the checks find a warm build cache.
here=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
for id in M01 X02 X04; do
  "$here/run.sh" $id -vscale 0.001 > /dev/null || exit 2
done

#!/bin/bash
# Builds the monitor once, which shows that the toolchain works and fills the compile cache.
here=$(cd "$(dirname "$0")" && pwd)
mkdir -p "$here/evidence"
"$here/run.sh" C14 -list

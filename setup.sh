#!/bin/bash
# Nothing has to be installed: every check builds what it needs from /repo's working tree.
# This shows that the framework builds here, and fills the build cache.
set -eu
cd "$(dirname "$0")"
bash run.sh gen 3 1 >/dev/null
echo "the framework builds"

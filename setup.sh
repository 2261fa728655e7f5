#!/bin/bash
# Warms the build: every check rebuilds the explorer from /repo's tree itself.
cd "$(dirname "$0")" || exit 1
. /opt/vp/env.sh
exec ./run.sh C01 -list

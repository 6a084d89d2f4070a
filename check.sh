#!/bin/bash
# check.sh <property>: rebuilds from /repo's working tree and searches for violations.
V=$(cd "$(dirname "$0")" && pwd)
bash "$V/mk.sh" >&2 || { echo "build failed" >&2; exit 3; }
exec "$V/build/simdrive" check "$1"

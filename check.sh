#!/bin/bash
# usage: check.sh ID TIER -- build from /repo's working tree and run one check
set -u
root=$(cd "$(dirname "$0")" && pwd)
. "$root/env.sh"
build "$1" || exit 2
exec "$MC_BIN" check "$1" "${2:-quick}"

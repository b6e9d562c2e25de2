#!/bin/bash
# usage: replay.sh FILE -- run the execution of a replay file again
set -u
root=$(cd "$(dirname "$0")" && pwd)
. "$root/env.sh"
build "$(grep -o '"property": *"C[0-9]*"' "$1" | grep -o "C[0-9]*")" || exit 2
exec "$MC_BIN" replay "$1"

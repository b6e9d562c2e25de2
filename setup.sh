#!/bin/bash
# Builds the checks from the committed files
set -u
root=$(cd "$(dirname "$0")" && pwd)
. "$root/env.sh"
build C01 && build C18

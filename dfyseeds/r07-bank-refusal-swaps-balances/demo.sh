#!/bin/bash
# cwd: the repository
here=$(cd "$(dirname "$0")" && pwd)
d=$(mktemp -d) || exit 2
trap 'rm -rf "$d"' EXIT
. "$here/bank.sh"

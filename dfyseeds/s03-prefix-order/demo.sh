#!/bin/bash
# cwd: the repository.  Verifies harness.dfy (it includes the repository's modules) with the stock Dafny.
here=$(cd "$(dirname "$0")" && pwd)
d=$(mktemp -d) || exit 2
trap 'rm -rf "$d"' EXIT
sed "s#@REPO@#$PWD#g" "$here/harness.dfy" > "$d/harness.dfy"
out=$(timeout 250 dafny /nologo /compile:0 /timeLimit:100  "$d/harness.dfy" 2>&1)
echo "$out"
echo "$out" | grep -q "verified, 0 errors"

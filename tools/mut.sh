#!/bin/bash
# mut.sh CHECK SED-EXPRESSION FILE [SED FILE ...]: run a check against a scratch copy with an edit (development)
set -e
c=$1; shift
d=$(mktemp -d /tmp/mut.XXXXXX)
cp -a /repo/. $d/r
while [ $# -gt 1 ]; do sed -i -E "$1" $d/r/$2; shift 2; done
git -C $d/r diff --stat | tail -1
VP_REPO=$d/r VP_BUILD=$d/b python3 /verif/check.py $c 2>&1 | grep -v "^  \|^thread\|^first" | tail -${LINES_OUT:-6} || true
rm -rf "$d"

#!/bin/sh
# usage: check.sh Cxx -- decides one property against /repo's working tree
cd "$(dirname "$0")" || exit 2
[ -x bin/gover ] || ./build.sh >&2 || exit 2
exec bin/gover check "$1"

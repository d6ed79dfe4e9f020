#!/bin/bash
# Compiles demo.c (beside this file) with the sources of the current directory
# and runs it: exit 0 when the property held.
here=$(cd "$(dirname "$0")" && pwd)
work=$(mktemp -d) || exit 2
trap 'rm -rf "$work"' EXIT
gcc -O1 -w -I. -I"$here" -o "$work/demo" "$here/demo.c" dhara/*.c ecc/*.c || exit 2
timeout 200 "$work/demo"

#!/bin/bash
# usage: mut.sh PATCH PROPERTY...   runs the checks of the properties against a copy of /repo with the patch applied
patch=$(realpath "$1"); shift
copy=$(mktemp -d /tmp/mut-XXXXXX)
cp -a /repo/. "$copy/"
git -C "$copy" apply "$patch" || { rm -rf "$copy"; exit 3; }
for p in "$@"; do VERIF_REPO="$copy" "$(dirname "$0")/../check" "$p" > $copy/out 2>&1; rc=$?; head -${LINES_SHOWN:-2} $copy/out | cut -c1-${COLS:-200}; echo "$p -> $rc"; done
rm -rf "$copy"

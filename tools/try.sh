#!/bin/bash
# try.sh PATCH ID...: applies a patch to /repo, runs the checks of the given properties, undoes the patch.
P=$(realpath "$1"); shift
git -C /repo diff --quiet || { echo "/repo is not clean"; exit 9; }
git -C /repo apply "$P" || exit 9
trap 'git -C /repo checkout -q -- .' EXIT
for i in "$@"; do
    "$(dirname "$0")/../check.sh" "$i" > /tmp/try.$i.log 2>&1
    echo "$i rc=$? $(grep -v '^property=' /tmp/try.$i.log | grep -vE '^(KNOWN|  t=|run )' | head -1 | cut -c1-200)"
done

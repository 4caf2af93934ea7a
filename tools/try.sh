#!/bin/bash
# tools/try.sh PATCH ID... : apply PATCH to a scratch copy-free /repo, run the quick checks, undo.
patch=$(realpath "$1"); shift
git -C /repo apply "$patch" || exit 9
for id in "$@"; do timeout 900 node /verif/sim/run.mjs $id --tier quick ${TRYARGS:-} 2>&1 | cut -c1-260 | head -${TRYLINES:-3}; done
git -C /repo checkout -- .

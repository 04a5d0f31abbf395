#!/bin/bash
# try_bug.sh <bug id> <property>...: applies a planted bug to /repo, runs the checks, undoes it.
export GIT_LFS_SKIP_SMUDGE=1  # data/paper.csv is a git-lfs pointer and there is no network
v="$(cd "$(dirname "$0")/.." && pwd)"; id=$1; shift
git -C /repo diff --quiet || { echo "/repo is not clean"; exit 2; }
git -C /repo apply $v/seeded/$id/patch.diff || exit 2
for p in "$@"; do echo "-- $id against $p"; (cd $v; VERIF_SHRINK_S=${VERIF_SHRINK_S:-5} ./check.sh $p quick 2>&1 | tail -${LINES_OUT:-3}); done
git -C /repo checkout -q -- .

#!/bin/bash
# revert.sh <commit> <property>...: runs checks against a scratch copy of /repo with one fix undone
c=$1; shift
d=$(mktemp -d /tmp/rev.XXXXXX)
git -C /repo worktree add -q --detach "$d/w" HEAD || exit 2
if git -C "$d/w" revert -n "$c" >/dev/null 2>&1; then
for p in "$@"; do echo "== $c $p"; VERIF_REPO=$d/w VERIF_NOEVIDENCE=1 bash /verif/run.sh "$p" 2>/dev/null | cut -c1-600 | tail -${TAILN:-6}; done
else echo "revert of $c conflicts"; fi
git -C /repo worktree remove --force "$d/w"; rm -rf "$d"

#!/bin/bash
# Check seeded bugs: seedcheck.sh ID...  (applies, stable demo pass/fail, and
# the Python suites; prints one line each).  Works in a scratch worktree.
set -u
W=/tmp/seedwt.$$
git -C /repo worktree add -q --detach $W HEAD || exit 1
trap 'git -C /repo worktree remove --force $W' EXIT
for id in "$@"; do
  d=/verif/seeded/$id
  s=/tmp/seeddemo.$$
  mkdir $s; cp -a $d/. $s/; rm -f $s/patch.diff $s/meta.json
  cd $W && git checkout -q -- . && git clean -fdq
  bash $s/demo.sh >/tmp/seed.$id.clean 2>&1; a=$?
  git apply $d/patch.diff || { echo "$id: patch does not apply"; rm -rf $s; continue; }
  bash $s/demo.sh >/tmp/seed.$id.patched 2>&1; b=$?
  t=$(python3 fix_includes_test.py 2>&1 | tail -1; python3 iwyu_tool_test.py 2>&1 | tail -1)
  rm -rf $s
  echo "$id: clean=$a patched=$b tests: $t"
done

#!/bin/bash
# revertfix.sh COMMIT PROP...: undo one fix in /repo's working tree, run the checks, restore.
c=$1; shift
cd /repo || exit 2
if ! git show $c -- . | git apply -R 2>/dev/null; then
  if ! git show $c -- . | git apply -R --3way 2>/dev/null; then echo "$c does not revert cleanly"; git reset -q --hard HEAD; exit 3; fi
fi
git reset -q
for p in "$@"; do (cd /verif; echo "$c $p: $(python3 check.py $p 2>&1 | cut -c1-200 | tail -2 | tr '\n' ' ')"); done
git checkout -q -- .

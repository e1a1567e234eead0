#!/bin/bash
# try.sh PATCH PROP...: apply a change to /repo, run checks, undo it.
# PATCH may also be "revert:<commit>".
set -u
P=$1; shift
cd /repo || exit 2
[ -z "$(git status --porcelain)" ] || { echo "/repo not clean"; exit 2; }
case $P in
 revert:*) git show "${P#revert:}" -- crates bins | git apply -R || exit 2;;
 *) git apply "$P" || exit 2;;
esac
export SIM_ROOT=/tmp/sr; mkdir -p /tmp/sr; cp /verif/known_findings.json /tmp/sr/
for id in "$@"; do
  timeout 900 /verif/check.sh "$id" quick > /tmp/sr/out.txt 2>&1; rc=$?
  echo "$id rc=$rc $(grep -m1 -B2 '^VIOLATION' /tmp/sr/out.txt | head -1 | cut -c1-200)"
  [ $rc -gt 1 ] && tail -20 /tmp/sr/out.txt
done
git checkout -q -- .

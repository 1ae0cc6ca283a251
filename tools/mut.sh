#!/bin/bash
# usage: mut.sh "<ids>" patch.diff...   run checks against patched scratch copies of /repo
ids=$1; shift
for p in "$@"; do
  d=$(mktemp -d /tmp/mutXXXXXX)
  cp -a /repo/kio /repo/bitcask $d/ ; (cd $d && git init -q . && git apply "$p") || { echo "PATCH FAILED $p"; rm -rf "$d"; continue; }
  echo "== $p"
  KIO_REPO=$d KIO_CACHE=$d/cache KIO_EVID=$d/ev python3 /verif/check.py $ids 2>&1 | grep -v "^OK"
  rm -rf "$d"
done

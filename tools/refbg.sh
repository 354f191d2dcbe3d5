#!/bin/bash
# refbg.sh DIFF PROP...: checks on a behaviour-preserving change, on private copies of /repo and /verif
set -e
DIFF=$(readlink -f "$1"); shift
D=$(mktemp -d /tmp/ref.XXXX); cp -a /verif $D/v; cp -a /repo $D/r
git -C $D/r checkout -q -- .; git -C $D/r apply "$DIFF"
unshare -m sh -c 'mount --bind '$D'/v /verif && mount --bind '$D'/r /repo && cd /verif && for p in "$@"; do s=$(date +%s); timeout 900 python3 run.py $p > /tmp/ref-'$(basename $DIFF .diff)'-$p.out 2>&1; echo "$p rc=$? $(( $(date +%s) - s ))s"; done' x "$@"
rm -rf $D

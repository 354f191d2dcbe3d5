#!/bin/bash
# mutbg.sh LIST [ID...]: the mutation survey on private copies of /repo and /verif (mount namespace), so that work can go on
set -e
D=$(mktemp -d /tmp/mut.XXXX); cp -a /verif $D/v; cp -a /repo $D/r
git -C $D/r checkout -q -- .
unshare -m sh -c 'mount --bind '$D'/v /verif && mount --bind '$D'/r /repo && cd /verif && python3 tools/mutate.py "$@"' x "$@"
rm -rf $D

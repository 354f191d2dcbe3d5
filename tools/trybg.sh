#!/bin/bash
# trybg.sh DIR ID...: try.sh on private copies of /repo and /verif (mount namespace) under DIR
set -e
[ ! -e "$1" ] || { echo "$1 exists: name a new directory" >&2; exit 2; }
D=$1; shift
mkdir -p "$D"; cp -a /verif "$D/v"; cp -a /repo "$D/r"
git -C "$D/r" checkout -q -- .
unshare -m sh -c 'mount --bind '"$D"'/v /verif && mount --bind '"$D"'/r /repo && cd /verif && bash tools/try.sh "$@"' x "$@"
rm -rf "$D"

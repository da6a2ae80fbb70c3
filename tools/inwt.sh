#!/bin/bash
# usage: inwt.sh NAME PATCH|- COMMAND...
# Run COMMAND with a scratch copy of /repo (PATCH applied) mounted over /repo in a
# private mount namespace: /repo itself is never touched.
name=$1; patch=$2; shift 2
W=/tmp/wt-$name
[ "$patch" != - ] && patch=$(realpath "$patch")
rm -rf "$W"; mkdir -p "$W/vp"; cp -a /repo "$W/repo"; cp -a /opt/vp/. "$W/vp/"
git -C "$W/repo" checkout -q -- .
if [ "$patch" != - ]; then git -C "$W/repo" apply "$patch" || { rm -rf "$W"; exit 99; }; fi
unshare -m bash -c 'mount --bind "$1/repo" /repo && mount --bind "$1/vp" /opt/vp && shift && cd /repo && exec "$@"' _ "$W" "$@"
rc=$?
rm -rf "$W"
exit $rc

#!/bin/bash
# development aid: nsrun.sh <patch or ''> <command...>: run a command with /repo showing a patched scratch copy (private mount namespace)
P=$1; shift; R=/tmp/seedrepo
git -C $R checkout -q -- . ; git -C $R clean -fdq; git -C $R fetch -q /repo HEAD && git -C $R reset -q --hard FETCH_HEAD
[ -n "$P" ] && { git -C $R apply "$P" || exit 99; }
unshare -Urm bash -c 'mount --bind /tmp/seedrepo /repo; "$@"' _ "$@"; rc=$?
git -C $R checkout -q -- .
exit $rc

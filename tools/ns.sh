#!/bin/bash
# usage: ns.sh COMMAND...   runs a command in a namespace where /repo and /verif are scratch copies (of the working trees),
# so that trybugs/mkseed can run while something else uses the real ones. seeded/ is copied back when KEEP_SEEDED=1.
w=$(mktemp -d /tmp/ns-XXXXXX)
cp -a /repo "$w/repo"; cp -a "${NS_VERIF:-/verif}" "$w/verif"
nice -n 10 unshare -mn bash -c "ip link set lo up 2>/dev/null; mount --bind $w/repo /repo && mount --bind $w/verif /verif && cd /verif && \"\$@\"" ns "$@"
rc=$?
[ "${KEEP_SEEDED:-}" = 1 ] && cp -a "$w/verif/seeded/." /verif/seeded/
rm -rf "$w"
exit $rc

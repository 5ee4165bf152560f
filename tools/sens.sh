#!/bin/bash
# sens.sh COMMIT PROP [args]: run a check against a copy of /repo with one fix reverted
c=$1; p=$2; shift 2
d=$(mktemp -d /tmp/sens.XXXXXX)
cp -a /repo $d/repo
git -C $d/repo revert -n $c >/dev/null 2>&1 || { echo "CONFLICT $c"; rm -rf $d; exit 3; }
cd /verif
DST_REPO=$d/repo timeout 600 /opt/venv/bin/python -m dst.check $p "$@" > $d/out 2>&1
rc=$?
echo "== $c $p rc=$rc $(grep -A1 'violation at' $d/out | head -2 | cut -c1-250 | tr '\n' ' ')"
[ $rc = 2 ] && tail -5 $d/out
rm -rf $d

#!/bin/bash
# reverttest.sh HASH CHECK... : does CHECK report the defect again when fix HASH is undone (private copy of /repo)?
H=$1; shift
W=$(mktemp -d /var/tmp/rev.XXXXXX); trap 'rm -rf "$W"' EXIT
cp -a /repo $W/repo; cp -a /verif $W/verif; rm -rf $W/verif/seeded
git -C $W/repo revert -n $H || exit 1
export W H; export CH="$*"
unshare -Urm bash -c 'mount --bind $W/repo /repo; mount --bind $W/verif /verif; mount -t tmpfs none /tmp; cd /verif
for c in $CH; do VERIF_SEED=1 timeout 900 python3 checks/$c.py --no-evidence > $W/c.log 2>&1; echo "$H $c rc=$?"; grep -m1 "^---" $W/c.log | cut -c1-250; done'

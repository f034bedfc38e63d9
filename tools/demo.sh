#!/bin/bash
# tools/demo.sh ID...: the demonstration with the patch, without building (bugs in Python code only)
if [ "$1" != inner ]; then
    for id in "$@"; do unshare -Urm bash "$0" inner "$id" & done
    wait
    exit
fi
id=$2; t=/tmp/dq/$id
mkdir -p $t && cp -a /repo $t/repo && git -C $t/repo apply "/verif/seeded/$id/patch.diff" || { echo "$id: patch does not apply"; exit 1; }
mount --bind $t/repo /repo || exit 9
(cd /repo && timeout 300 bash "/verif/seeded/$id/demo.sh" >$t/demo.log 2>&1); d=$?
echo "$id: demo with the patch $d: $(tail -1 $t/demo.log | cut -c1-150)"
case "$t" in /tmp/dq/?*) rm -rf "$t/repo";; esac

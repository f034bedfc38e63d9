#!/bin/bash
# tools/confirm.sh ID...: in private mount namespaces (nothing outside is changed), apply seeded/ID/patch.diff to a copy of /repo,
# build, run the repository's tests and the demonstration. Prints one line per bug.
if [ "$1" != inner ]; then
    for id in "$@"; do
        t=/tmp/cf/$id
        mkdir -p $t
        cp -a /repo $t/repo
        git -C $t/repo apply "/verif/seeded/$id/patch.diff" || { echo "$id: patch does not apply"; continue; }
        (cd /repo && timeout 300 bash "/verif/seeded/$id/demo.sh" >$t/demo0.log 2>&1); d0=$?
        timeout 1500 unshare -Urm bash "$0" inner "$id" "$t" >$t/log 2>&1
        echo "$id: demo on clean tree $d0 (0 expected), $(tail -1 $t/log)"
        case "$t" in /tmp/cf/?*) rm -rf "$t/venv" "$t/build" "$t/repo";; esac
    done
    exit
fi
id=$2; t=$3
mount --bind $t/repo /repo || exit 9
cp -a /opt/venv $t/venv && mount --bind $t/venv /opt/venv || exit 9
cp -a /opt/build $t/build && mount --bind $t/build /opt/build || exit 9
bash /opt/vp/build.sh >$t/build.log 2>&1; b=$?
bash /opt/vp/test.sh $t/t.json >$t/test.log 2>&1
(cd /repo && timeout 300 bash "/verif/seeded/$id/demo.sh" >$t/demo1.log 2>&1); d1=$?
echo "build $b, $(tail -1 $t/test.log), demo $d1 (nonzero expected): $(tail -1 $t/demo1.log | cut -c1-150)"

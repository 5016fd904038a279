#!/bin/bash
# seedcheck.sh <id> [property...]: plant a bug in a scratch copy of /repo (mounted over /repo in a private mount
# namespace, so that /repo itself is not touched), build, test, run its demo and the checks
if [ -z "$SC_NS" ]; then
    t=$(mktemp -d /tmp/seedcheck.XXXXXX) || exit 2
    cp -a /repo "$t/repo" && git -C "$t/repo" checkout -q -- . && SC_NS=$t unshare -m bash "$0" "$@"; r=$?
    case $t in /tmp/seedcheck.*) rm -rf "$t";; esac
    exit $r
fi
t=$SC_NS; mount --bind $t/repo /repo || exit 2
id=$1; shift; d=/verif/seeded/$id
p=${*:-$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")}
[ -z "$(git -C /repo status --porcelain)" ] || { echo "/repo is not clean"; exit 2; }
(cd /repo && bash $d/demo.sh >$t/demo0 2>&1); echo "$id: demo unchanged: $? (want 0)"
git -C /repo apply $d/patch.diff || exit 2
bash /opt/vp/build.sh >$t/build 2>&1 || { echo "BUILD FAILS"; tail -5 $t/build; }
bash /opt/vp/test.sh $t/json >$t/test 2>&1; tail -1 $t/test
(cd /repo && bash $d/demo.sh >$t/demo1 2>&1); echo "demo patched: $? (want nonzero)"; head -3 $t/demo1
for x in $p; do s=$SECONDS; (cd /verif && VERIF_EVIDENCE=$t python3 run.py check $x --tier quick >$t/$x 2>&1); echo "check $x: $? $(grep -c ^VIOLATION $t/$x) violation lines, $((SECONDS - s)) s"; grep -A2 -m1 ^VIOLATION $t/$x | cut -c1-250; done

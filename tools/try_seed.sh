#!/bin/bash
# try_seed.sh ID [CHECK...]: applies seeded/ID/patch.diff to /repo, builds, tests,
# runs the demo and the given checks (default: the property's), undoes the patch.
R=${REPO:-/repo}; [ $R = /repo ] && TS=${T_SH:-/verif/tools/t.sh} || TS=/tmp/ts${R#/tmp/rs}.sh
export REPO=$R
D=/verif/seeded/$1; shift
[ -f $D/meta.json ] || { echo "no $D"; exit 2; }
P=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
[ $# -gt 0 ] || set -- $P
[ -z "$(git -C $R status --porcelain)" ] || { echo "repo not clean"; exit 2; }
T=$(mktemp -d); cp $D/* $T/; rm -f $T/*.diff $T/meta.json
cd $R; bash $T/demo.sh > $T/clean.out 2>&1; echo "demo clean: $? (want 0)"
git apply $D/patch.diff || exit 2
$TS
bash $T/demo.sh > $T/bug.out 2>&1; echo "demo patched: $? (want nonzero)"; tail -4 $T/bug.out | cut -c1-200
for c in "$@"; do (cd /verif; timeout 900 ./check $c > $T/c.out 2>&1; echo "$c exit $? $(grep -c "^VIOLATION property=$c " $T/c.out) $(head -1 $T/c.out | cut -c1-250)"); done
git -C $R checkout -q -- .
[ $R = /repo ] && /opt/vp/build.sh >/dev/null 2>&1
rm -rf "$T"

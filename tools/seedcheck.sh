#!/bin/bash
# seedcheck.sh <seed id> [check...]: confirm a planted bug in a scratch copy, then
# (with checks given, or "-" for the check of its property) run checks against it in /repo.
id=$1; shift
S=/verif/seeded/$id; W=/tmp/seedwt
. <(sed 's#^cd /repo.*##; s#^cp go.mod.*##' /opt/vp/env.sh)
if [ ! -d $W ]; then git -C /repo worktree list >/dev/null; cp -a /repo $W; fi
git -C $W fetch -q /repo HEAD && git -C $W reset -q --hard FETCH_HEAD && git -C $W clean -fdq
cd $W
export GOFLAGS="-mod=mod -modfile=/tmp/seedwt.mod"; cp go.mod /tmp/seedwt.mod; cp go.sum /tmp/seedwt.sum
if [ "$SKIPDEMO" != 1 ]; then
bash $S/demo.sh > /tmp/seed.$id.clean 2>&1; echo "demo clean: $? (want 0)"
git apply $S/patch.diff || { echo "does not apply"; exit 2; }
go build ./... || { echo "does not build"; exit 2; }
bash $S/demo.sh > /tmp/seed.$id.bug 2>&1; echo "demo bug: $? (want 1)"
go test -json -vet=off -count=1 -timeout 10m ./... > /tmp/seedwt.json
python3 /opt/vp/results.py /tmp/seedwt.out "gojson:/tmp/seedwt.json" 2>&1 | tail -1
git checkout -q -- .
fi
[ "$1" = - ] && set -- $(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
[ $# = 0 ] && exit
cd /verif
git -C /repo apply $S/patch.diff || exit 2
for k in "$@"; do s=$(date +%s); timeout 900 bash /verif/run.sh $k > /tmp/seed.$id.$k 2>&1; echo "$id $k exit $? $(($(date +%s)-s))s: $(grep VIOLATION /tmp/seed.$id.$k | head -1 | cut -c1-250)"; done
git -C /repo checkout -q -- .

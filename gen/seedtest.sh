#!/bin/bash
# seedtest.sh <id>... : confirm planted bugs in a scratch copy (builds, stable tests pass, demo passes before / fails after)
# and report which checks catch them (applied to /repo, undone straight after).
for id in "$@"; do
  d=/verif/seeded/$id
  w=$(mktemp -d /tmp/seedtest.XXXXXX); cp -a /repo $w/repo
  ( cd $w/repo; export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local
    cp -a $d $w/demo; rm -f $w/demo/*.diff $w/demo/meta.json
    timeout 300 bash $w/demo/demo.sh >$w/o1 2>&1 || { echo "$id: demo FAILS on unchanged tree"; tail -5 $w/o1; }
    git apply $d/patch.diff || { echo "$id: patch does not apply"; exit; }
    go build ./... >/dev/null 2>$w/vet || { echo "$id: vet/build problem"; head -5 $w/vet; }
    go test ./... >$w/t 2>&1 || { echo "$id: TESTS FAIL"; grep -m3 -- '--- FAIL' $w/t; }
    go test -tags forcegeneric ./... >$w/t2 2>&1 || { echo "$id: (generic tests fail)"; grep -m3 -- '--- FAIL' $w/t2; }
    timeout 300 bash $w/demo/demo.sh >$w/o2 2>&1 && { echo "$id: demo PASSES with the patch"; } 
  )
  rm -rf "$w"
  p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  git -C /repo apply $d/patch.diff && out=$(timeout 900 /verif/run.sh $p 2>&1); rc=$?
  git -C /repo checkout -q -- .
  echo "$id [$p] rc=$rc $(echo "$out" | grep -v '^  [a-z:]*: [0-9]*$' | head -2 | cut -c1-220 | tr '\n' '|')"
done

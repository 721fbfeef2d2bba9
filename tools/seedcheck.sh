#!/bin/bash
# seedcheck.sh ID...: validate planted bugs in a scratch copy of /repo, then run
# the property's quick check against /repo with the bug applied.
. /opt/vp/env.sh >/dev/null 2>&1
for id in "$@"; do
  s=/verif/seeded/$id
  cp /verif/tools/demo/demo.sh /verif/tools/demo/help.go "$s/"
  prop=$(python3 -c "import json;print(json.load(open('$s/meta.json'))['property'])")
  w=$(mktemp -d /tmp/seed.XXXXXX); cp -a /repo/. $w
  r="$id $prop:"
  (cd $w && bash $s/demo.sh >$w.o 2>&1) && r="$r clean-ok" || { r="$r CLEAN-DEMO-FAILS"; cat $w.o; }
  if (cd $w && git apply $s/patch.diff); then
    (cd $w && go build ./... && go vet ./tests >/dev/null 2>&1; go test ./tests 2>&1 | tail -1 | grep -q '^ok') && r="$r tests-ok" || r="$r TESTS-FAIL"
    (cd $w && bash $s/demo.sh >$w.o 2>&1) && r="$r DEMO-PASSES-WITH-BUG" || r="$r demo-fails($(tail -1 $w.o))"
  else r="$r NO-APPLY"; fi
  rm -rf "$w" "$w.o"
  if [ -z "$NOCHECK" ]; then
    git -C /repo apply $s/patch.diff
    t0=$(date +%s); out=$(timeout 900 /verif/check.sh $prop ${TIER:-quick} 2>&1); rc=$?; t1=$(date +%s)
    git -C /repo checkout -q -- .
    if [ $rc = 1 ] && grep -q "VIOLATION property=$prop" <<<"$out"; then r="$r CAUGHT $((t1-t0))s"; else r="$r MISSED rc=$rc $((t1-t0))s"; tail -5 <<<"$out"; fi
  fi
  echo "$r"; python3 - "$id" "$prop" "$r" <<P
import sys
f="/verif/tools/seeds.txt"
try: d=dict(l.rstrip("\n").split("\t") for l in open(f))
except OSError: d={}
r=sys.argv[3]
d[sys.argv[1]]=sys.argv[2]+": "+("caught" if "CAUGHT" in r else "missed" if "MISSED" in r else "not run")
open(f,"w").write("".join("%s\t%s\n"%kv for kv in sorted(d.items())))
P
done

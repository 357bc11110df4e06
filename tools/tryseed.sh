#!/bin/bash
# tryseed.sh ID: is the planted bug valid (applies, builds, tests pass, demo distinguishes), does the check catch it?
id=$1; s=/verif/seeded/$id; w=$(mktemp -d /tmp/seed_XXXX); r=$w/repo; cp -a /repo $r
prop=$(python3 -c "import json;print(json.load(open('$s/meta.json'))['property'])")
( cd $r && bash $s/demo.sh ) >$w/d0 2>&1; d0=$?
git -C $r apply $s/patch.diff || { echo "$id: DOES NOT APPLY"; rm -rf $w; exit 1; }
( cd $r/preload-src && make ) >$w/b 2>&1; b=$?
( cd $r/preload-src && make test ) >$w/t 2>&1; t=$?
( cd $r && bash $s/demo.sh ) >$w/d1 2>&1; d1=$?
echo "$id $prop build=$b tests=$t($(grep -c -i ' ok\|pass' $w/t)) demo: unchanged=$d0 patched=$d1 $(tail -1 $w/d1)"
[ $d0 -eq 0 ] || tail -5 $w/d0
if [ "$2" != nocheck ]; then
  cd /verif; s0=$(date +%s); VP_REPO=$r VP_REPLAY_DIR=$w/replay VP_EVIDENCE_DIR=$w timeout 890 python3 check.py $prop >$w/c 2>&1; c=$?
  echo "   check $prop exit=$c $(( $(date +%s) - s0 ))s: $(grep -v '^VIOL' $w/c | tail -1 | cut -c1-300)"
fi
rm -rf "$w"

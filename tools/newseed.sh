#!/bin/bash
# newseed.sh ID PROP "needs" "breaks" ["ldflags"] <demo.c ; the change is made by /tmp/edit.py in a scratch copy (cwd = copy)
id=$1; s=/verif/seeded/$id; mkdir -p $s; cat > $s/demo.c; cp /verif/tools/demo.sh $s/demo.sh; chmod +x $s/demo.sh
[ -n "$5" ] && echo "$5" > $s/ldflags
python3 - "$2" "$3" "$4" > $s/meta.json <<'P'
import json,sys
print(json.dumps({"property":sys.argv[1],"needs":sys.argv[2],"what_it_breaks":sys.argv[3]},indent=1))
P
w=$(mktemp -d /tmp/ns_XXXX); git -C /repo worktree add -q --detach $w/r HEAD; ( cd $w/r/preload-src/src && python3 /tmp/edit.py ) ; git -C $w/r diff > $s/patch.diff; git -C /repo worktree remove --force $w/r; rm -rf "$w"
wc -l $s/patch.diff

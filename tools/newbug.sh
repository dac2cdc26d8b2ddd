#!/bin/bash
# newbug.sh ID PROP "needs" "breaks": takes the diff now in /repo as patch of seeded/ID, undoes it in /repo. demo.sh is read from stdin.
B=/verif/seeded/$1; mkdir -p $B
git -C /repo diff > $B/patch.diff; git -C /repo checkout -q -- .
cat > $B/demo.sh
python3 - "$@" <<'P' > $B/meta.json
import json,sys
print(json.dumps({"property":sys.argv[2],"needs":sys.argv[3],"what_it_breaks":sys.argv[4]},indent=1))
P

#!/bin/bash
# apply a planted bug to /repo, run the checks given (default: its own property), undo
id=$1; shift
props="$@"; [ -z "$props" ] && props=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
git -C /repo apply /verif/seeded/$id/patch.diff || exit 9
cd /verif
for p in $props; do timeout 890 python3-vt -m cv.check $p 2>/tmp/runbug.err | tail -6; echo "   $id $p rc ${PIPESTATUS[0]}"; tail -4 /tmp/runbug.err; done
git -C /repo checkout -- .

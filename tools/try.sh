#!/bin/bash
# try.sh BUG [check args]: run the bug's own check with the patch applied, then undo
b=/verif/seeded/$1; shift
p=$(python3 -c "import json;print(json.load(open('$b/meta.json'))['property'])")
git -C /repo apply $b/patch.diff || exit 3
python3 /verif/check.py $p "$@" 2>&1 | tail -${TAIL:-8}
git -C /repo checkout -- .

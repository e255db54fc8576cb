#!/bin/bash
# mkseed.sh ID PROPERTY "needs" "breaks" < demo.py : record /repo's uncommitted change as a planted bug
d=/verif/seeded/$1; mkdir -p $d
git -C /repo diff > $d/patch.diff; git -C /repo checkout -q -- .
cp /verif/tools/demolib.py $d/demolib.py
cat > $d/demo.py
cat > $d/demo.sh <<'X'
#!/bin/bash
here=$(cd "$(dirname "$0")" && pwd)
PY=/opt/venv/bin/python; [ -x $PY ] || PY=python3
PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 PYTHONPATH=$here exec $PY $here/demo.py
X
python3 - "$d" "$2" "$3" "$4" <<'X'
import json,sys
json.dump({"property":sys.argv[2],"needs":sys.argv[3],"what_it_breaks":sys.argv[4]},open(sys.argv[1]+'/meta.json','w'),indent=1)
X

#!/bin/bash
# mkseed.sh ID PROPERTY "needs" "what it breaks": takes the diff of the scratch copy /tmp/m as a planted bug
set -e
d=/verif/seeded/$1
mkdir -p $d
git -C /tmp/m diff > $d/patch.diff
git -C /tmp/m checkout -q -- .
python3 - "$@" <<'P'
import json, sys
json.dump({"property": sys.argv[2], "needs": sys.argv[3], "what_it_breaks": sys.argv[4]}, open('/verif/seeded/%s/meta.json' % sys.argv[1], 'w'), indent=1)
P
cat > $d/demo.sh <<'P'
#!/bin/bash
# run in the root of the repository
exec env PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD" timeout 200 /opt/venv/bin/python "$(dirname "$0")/demo.py"
P
wc -l $d/patch.diff

#!/bin/bash
# newseed.sh ID PROPERTY "needs" "breaks" < demo.py ; takes the patch from the dirty scratch copy $W (default /tmp/seedwork/repo)
W=${W:-/tmp/seedwork/repo}
S=/verif/seeded/$1; mkdir -p $S
git -C $W diff > $S/patch.diff; git -C $W checkout -q -- .
[ -s $S/patch.diff ] || echo "EMPTY PATCH"
cat > $S/demo.py
cp /verif/tools/seedlib.py $S/seedlib.py
printf '#!/bin/bash\nexport HOME=/root OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1 PYTHONDONTWRITEBYTECODE=1 PYTHONWARNINGS=ignore\nexec /opt/venv/bin/python "$(cd "$(dirname "$0")" && pwd)/demo.py"\n' > $S/demo.sh
python3 - "$S" "$2" "$3" "$4" <<'P'
import json,sys
json.dump({"property":sys.argv[2],"needs":sys.argv[3],"what_it_breaks":sys.argv[4]},open(sys.argv[1]+"/meta.json","w"),indent=1)
P

# runbug.sh id... : apply, run the property's check, undo
cd /verif
for i in "$@"; do
 p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$i/meta.json'))['property'])")
 git -C /repo apply /verif/seeded/$i/patch.diff || { echo "$i APPLY FAILED"; continue; }
 s=$(date +%s)
 /opt/venv/bin/python check.py $p > /tmp/rb.out 2>&1; rc=$?
 git -C /repo checkout -- .
 echo "$i $p rc=$rc $(( $(date +%s)-s ))s: $(grep VIOLATION /tmp/rb.out | head -1)"; grep -v VIOLATION /tmp/rb.out | head -2 | cut -c1-220
done

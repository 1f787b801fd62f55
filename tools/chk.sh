S=/verif/seeded/$1; P=${2:-$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")}
cd /verif; bash tools/nsrun.sh $S/patch.diff python3 check.py $P > /tmp/seed_check.log 2>&1; rc=$?
echo "$1 $P check exit $rc"; tail -7 /tmp/seed_check.log | cut -c1-500

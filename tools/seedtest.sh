#!/bin/bash
# development aid: seedtest.sh <seed id> [nocheck]  -- confirm a planted bug and run its check against it
set -u
S=/verif/seeded/$1; P=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
R=/tmp/seedrepo
if [ ! -d $R ]; then cp -a /repo $R; fi
rsync -a --delete --exclude target --exclude .git /repo/ $R/ 2>/dev/null || { git -C $R checkout -q -- . ; }
git -C $R checkout -q -- . 
(cd $R && bash $S/demo.sh >/tmp/seed_demo0.log 2>&1); echo "demo on unchanged: $?"
git -C $R apply --check $S/patch.diff && git -C $R apply $S/patch.diff || { echo "PATCH DOES NOT APPLY"; exit 1; }
(cd $R && bash $S/demo.sh >/tmp/seed_demo1.log 2>&1); echo "demo with patch: $?"; tail -3 /tmp/seed_demo1.log
sed 's#/repo#/tmp/seedrepo#' /opt/vp/env.sh > /tmp/seedenv.sh
(. /tmp/seedenv.sh; cd $R; cargo test --workspace --all-features --no-fail-fast --offline -- --test-threads 8 > /tmp/seed_test.log 2>&1)
cat > /tmp/seedcmp.py <<'P'
import json,subprocess,sys
subprocess.run(['python3','/opt/vp/results.py','/tmp/seed_out.json','cargo:/tmp/seed_test.log'])
o=json.load(open('/tmp/seed_out.json')); b=json.load(open('/opt/vp/BASELINE.json'))['stable']
passed=set(o.get('passed',[])) if isinstance(o,dict) else set()
miss=[t for t in b if t not in passed]
print('stable tests failing:',len(miss),miss[:5])
P
python3 /tmp/seedcmp.py
git -C $R checkout -q -- .
[ "${2:-}" = nocheck ] && exit 0
bash /verif/tools/chk.sh $1

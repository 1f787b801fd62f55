#!/bin/bash
# Builds the extractor and the bounded stand-ins (each check builds what it misses on its own).
cd "$(dirname "$0")" || exit 1
python3 - <<'P'
import sys; sys.path.insert(0, '.')
import subprocess, os, glob
subprocess.run(['cargo', 'build', '--release', '--offline', '--quiet'], cwd='extract')
from harness import build
for d in sorted(glob.glob('harness/*/')): print(d, build(os.getcwd(), os.environ.get('VERIF_REPO', '/repo'), os.path.basename(d.rstrip('/')))[0])
# the program of macro calls: its dependencies are built once here
b = 'harness/mac/target/debug/hmac'
if os.path.exists(b):
    import tempfile, shutil
    t = tempfile.mkdtemp()
    subprocess.run([os.path.abspath(b), 'real', '1', '1'], cwd=t, env=dict(os.environ, HARNESS_SCRATCH=t, VERIF_REPO=os.environ.get('VERIF_REPO', '/repo'), VERIF_DIR=os.getcwd()), stdout=subprocess.DEVNULL)
    shutil.rmtree(t)
P
exit 0

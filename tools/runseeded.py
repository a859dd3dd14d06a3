"""Development aid: python tools/runseeded.py [id ...] runs each planted bug's check on a scratch copy of /repo with the bug (from a copy of /verif)."""
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'
ids = [a for a in sys.argv[1:] if not a.startswith('--')] or sorted(os.listdir(os.path.join(HERE, 'seeded')))
props = [a[2:] for a in sys.argv[1:] if a.startswith('--')]
root = tempfile.mkdtemp(prefix='runseeded')
try:
    v = os.path.join(root, 'verif')
    shutil.copytree(HERE, v, ignore=shutil.ignore_patterns('.git', 'seeded', 'evidence', '__pycache__'))
    c = os.path.join(root, 'repo')
    shutil.copytree('/repo', c, symlinks=True)
    for i in ids:
        d = os.path.join(HERE, 'seeded', i)
        meta = json.load(open(os.path.join(d, 'meta.json')))
        subprocess.run(['git', 'apply', os.path.join(d, 'patch.diff')], cwd=c, check=True)
        for p in props or [meta['property']]:
            t = time.time()
            r = subprocess.run([PY, 'check.py', p], cwd=v, capture_output=True, env=dict(os.environ, VERIF_REPO=c))
            out = r.stdout.decode().strip().split('\n')
            hit = r.returncode == 1 and any(ln.startswith(f'VIOLATION property={p} ') for ln in out)
            print(i, p, 'CAUGHT' if hit else f'missed ({r.returncode})', f'{time.time() - t:.0f} s', (out[-2] if len(out) > 1 else out[-1])[:160], r.stderr.decode()[-200:] if r.returncode > 1 else '', flush=True)
        subprocess.run(['git', 'checkout', '-q', '--', '.'], cwd=c, check=True)
finally:
    shutil.rmtree(root)

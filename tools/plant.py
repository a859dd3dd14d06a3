"""Development aid: python tools/plant.py SPEC.py [id ...] verifies planted bugs in a scratch copy and writes /verif/seeded/<id>/.

SPEC.py holds BUGS, a list of dicts: id, property, needs, breaks, edits [(file, old, new), ...], demo (source of demo.py)."""
import difflib
import json
import os
import runpy
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'
BASE = 'abb499d'
PRE = '''import contextlib
import io
import os
import sys
import tempfile
sys.dont_write_bytecode = True
sys.path.insert(0, os.getcwd())
import numpy as np
import pyuff


def quiet(f, *a, **k):
    with contextlib.redirect_stdout(io.StringIO()):
        return f(*a, **k)


def lists(r):
    return r if isinstance(r, list) else [r]


'''
SH = '#!/bin/sh\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n'


def patch(edits, repo='/repo'):
    out, orig_ok = [], True
    by = {}
    for f, old, new in edits:
        by.setdefault(f, []).append((old, new))
    for f, es in by.items():
        s = open(os.path.join(repo, f), encoding='utf-8', newline='').read()
        t = s
        for old, new in es:
            if '\r\n' in s and '\r\n' not in old:
                old, new = old.replace('\n', '\r\n'), new.replace('\n', '\r\n')
            if t.count(old) != 1:
                raise SystemExit(f'{f}: {t.count(old)} occurrences of {old!r}')
            t = t.replace(old, new)
        base = subprocess.run(['git', '-C', repo, 'show', f'{BASE}:{f}'], capture_output=True).stdout.decode().splitlines()
        a, b = s.splitlines(True), t.splitlines(True)
        d = list(difflib.unified_diff(a, b, 'a/' + f, 'b/' + f))
        removed = [x[1:].rstrip('\r\n') for x in d[2:] if x.startswith('-')]
        if removed and not any(r in base for r in removed):
            orig_ok = False
        out += [x if x.endswith('\n') else x + '\n\\ No newline at end of file\n' for x in d]
    return ''.join(out), orig_ok


def demo(d, cwd):
    r = subprocess.run(['sh', os.path.join(d, 'demo.sh')], cwd=cwd, capture_output=True, timeout=300, env=dict(os.environ, PYTHONDONTWRITEBYTECODE='1'))
    return r.returncode, (r.stderr.decode().strip().split('\n') or [''])[-1][:150]


def main():
    bugs = runpy.run_path(sys.argv[1])['BUGS']
    ids = [json.loads(x) for x in []] + sys.argv[2:]
    stable = json.load(open('/opt/vp/BASELINE.json'))['stable']
    tests = [s.split('::')[0].replace('.', '/') + '.py::' + s.split('::')[1] for s in stable]
    root = tempfile.mkdtemp(prefix='plant')
    try:
        c = os.path.join(root, 'repo')
        shutil.copytree('/repo', c, symlinks=True)
        for b in bugs:
            if ids and b['id'] not in ids:
                continue
            text, orig = patch(b['edits'])
            d = os.path.join(root, 'x')
            shutil.rmtree(d, ignore_errors=True)
            os.makedirs(d)
            open(os.path.join(d, 'patch.diff'), 'w', newline='').write(text)
            open(os.path.join(d, 'demo.sh'), 'w').write(SH)
            open(os.path.join(d, 'demo.py'), 'w').write(PRE + b['demo'].strip('\n') + '\n')
            json.dump({'property': b['property'], 'needs': b['needs'], 'what_it_breaks': b['breaks']}, open(os.path.join(d, 'meta.json'), 'w'), indent=1)
            r0, m0 = demo(d, c)
            a = subprocess.run(['git', 'apply', os.path.join(d, 'patch.diff')], cwd=c, capture_output=True)
            if a.returncode:
                print(b['id'], 'DOES NOT APPLY', a.stderr.decode()[:300])
                continue
            r1, m1 = demo(d, c)
            t = subprocess.run([PY, '-m', 'pytest', '-q', '-x', '-p', 'no:cacheprovider'] + tests, cwd=c, capture_output=True,
                               env=dict(os.environ, PYTHONPATH=c, PYTHONDONTWRITEBYTECODE='1'))
            subprocess.run(['git', 'checkout', '-q', '--', '.'], cwd=c)
            subprocess.run(['git', 'clean', '-fdq'], cwd=c)
            ok = r0 == 0 and r1 != 0 and t.returncode == 0 and orig
            print(b['id'], b['property'], 'ok' if ok else 'REJECTED', f'clean={r0} {m0 if r0 else ""} bug={r1} {m1} tests={t.returncode} original={orig}', flush=True)
            if t.returncode:
                print(t.stdout.decode()[-400:])
            if ok:
                e = os.path.join(HERE, 'seeded', b['id'])
                shutil.rmtree(e, ignore_errors=True)
                shutil.copytree(d, e)
                os.chmod(os.path.join(e, 'demo.sh'), 0o755)
    finally:
        shutil.rmtree(root)


main()

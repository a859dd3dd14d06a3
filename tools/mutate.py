"""Development aid: AST mutants of pyuff that pass the stable tests, run through the checks' shards at small counts.

python tools/mutate.py list OUT.json [file ...]          writes the mutants
python tools/mutate.py run MUTANTS.json OUT.jsonl [jobs]    runs them (scratch copies under /tmp)"""
import ast
import json
import os
import random
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor, as_completed

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'
BASE = os.environ.get('MUT_BASE', '/repo')           # set to a frozen copy for long runs


def mutants(path, src):
    tree = ast.parse(src)
    lines = src.split('\n')
    off = [0]
    raw = src.encode()
    for ln in raw.split(b'\n'):
        off.append(off[-1] + len(ln) + 1)

    def pos(n):
        return off[n.lineno - 1] + n.col_offset, off[n.end_lineno - 1] + n.end_col_offset

    out = []

    def add(n, new, what):
        a, b = pos(n)
        if raw[a:b].decode() != new:
            out.append({'file': path, 'a': a, 'b': b, 'new': new, 'line': n.lineno, 'what': what, 'old': raw[a:b].decode()[:80]})

    docs = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef, ast.Module, ast.ClassDef)) and n.body and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant):
            docs.add(n.body[0].value)
    skip = set()
    for n in ast.walk(tree):
        if isinstance(n, ast.FunctionDef) and n.name.startswith('get_structure'):
            skip.update(ast.walk(n))
        if isinstance(n, ast.Raise):
            skip.update(ast.walk(n))
        if isinstance(n, ast.JoinedStr):
            skip.update(ast.walk(n))
        if isinstance(n, (ast.Import, ast.ImportFrom)):
            skip.update(ast.walk(n))
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == 'print':
            skip.update(ast.walk(n))
    seg = lambda n: ast.get_source_segment(src, n)
    for n in ast.walk(tree):
        if n in skip or n in docs:
            continue
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            m = {ast.Lt: '<=', ast.LtE: '<', ast.Gt: '>=', ast.GtE: '>', ast.Eq: '!=', ast.NotEq: '==', ast.In: 'not in', ast.NotIn: 'in', ast.Is: 'is not',
                 ast.IsNot: 'is'}
            add(n, f'{seg(n.left)} {m[type(n.ops[0])]} {seg(n.comparators[0])}', 'cmp')
        elif isinstance(n, ast.BinOp):
            m = {ast.Add: '-', ast.Sub: '+', ast.Mult: '/', ast.Div: '*', ast.FloorDiv: '/', ast.Mod: '//'}
            if type(n.op) in m and not (isinstance(n.op, ast.Mod) and isinstance(n.left, ast.Constant)):
                add(n, f'{seg(n.left)} {m[type(n.op)]} {seg(n.right)}', 'binop')
        elif isinstance(n, ast.BoolOp):
            o = ' or ' if isinstance(n.op, ast.And) else ' and '
            add(n, '(' + o.join(f'({seg(v)})' for v in n.values) + ')', 'boolop')
            for i in range(len(n.values)):
                o2 = ' and ' if isinstance(n.op, ast.And) else ' or '
                add(n, '(' + o2.join(f'({seg(v)})' for j, v in enumerate(n.values) if j != i) + ')', f'drop operand {i}')
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            add(n, f'({seg(n.operand)})', 'not')
        elif isinstance(n, (ast.If, ast.While)):
            add(n.test, 'True', 'if true') if isinstance(n, ast.If) else None
            add(n.test, 'False', 'if false')
        elif isinstance(n, ast.Constant):
            v = n.value
            if isinstance(v, bool):
                add(n, str(not v), 'bool')
            elif isinstance(v, int):
                add(n, f'{v + 1}', 'int+1')
                add(n, f'{v - 1}' if v else '-1', 'int-1')
            elif isinstance(v, float):
                add(n, repr(v + 1), 'float')
            elif isinstance(v, str) and '\n' not in seg(n) and seg(n)[0] in '\'"' and len(v) < 60:
                if v:
                    add(n, repr(v + 'X') if '.' not in v and '%' not in v else repr(v[:-1] + ('e' if v[-1] != 'e' else 'f')), 'str')
                    if v[0].isdigit() and '.' in v:
                        w, r = v.split('.', 1)
                        if w.isdigit():
                            add(n, repr(f'{int(w) + 1}.{r}'), 'width+1')
                            if r and r[0].isdigit():
                                q = ''.join(c for c in r if c.isdigit())
                                if int(q) > 0:
                                    add(n, repr(f'{w}.{int(q) - 1}{r[len(q):]}'), 'prec-1')
        elif isinstance(n, (ast.Assign, ast.AugAssign)) or (isinstance(n, ast.Expr) and isinstance(n.value, ast.Call)):
            add(n, 'pass', 'delete')
        elif isinstance(n, ast.Delete):
            add(n, 'pass', 'delete')
        elif isinstance(n, (ast.Break, ast.Continue)):
            add(n, 'pass', 'delete')
    return out


def sources():
    r = []
    for d, _, fs in os.walk(BASE + '/pyuff'):
        r += [os.path.relpath(os.path.join(d, f), BASE) for f in fs if f.endswith('.py') and f != '__init__.py']
    return sorted(r)


def relevant(f):
    t = ''.join(c for c in os.path.basename(f) if c.isdigit())
    allp = [f'C{i:02d}' for i in range(1, 21)]
    first = {'58': ['C01', 'C08', 'C09', 'C02', 'C10', 'C12', 'C13', 'C15', 'C16', 'C18'], '55': ['C05', 'C08', 'C09', 'C13', 'C12'],
             '2414': ['C05', 'C08', 'C09', 'C13', 'C12'], '2429': ['C06', 'C08', 'C09', 'C12'], '2467': ['C06', 'C08', 'C09', 'C12'],
             '': ['C19', 'C07', 'C20', 'C10', 'C17', 'C11', 'C12']}.get(t)
    if first is None:
        first = ['C03' if t in ('15', '18', '82', '2411', '2412', '2420') else 'C04', 'C08', 'C09', 'C12', 'C13', 'C17']
    if t:
        allp = ['C14', 'C10', 'C11', 'C18']
    return first + [p for p in allp if p not in first]


def run_one(m, copies):
    c = copies.pop()
    try:
        p = os.path.join(c, m['file'])
        orig = open(os.path.join(BASE, m['file']), 'rb').read()
        new = orig[:m['a']] + m['new'].encode() + orig[m['b']:]
        open(p, 'wb').write(new)
        try:
            compile(new, p, 'exec')
        except SyntaxError:
            return {**m, 'state': 'syntax'}
        env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1', VERIF_REPO=c,
                   PYTEST_DISABLE_PLUGIN_AUTOLOAD='1', PYTHONPATH=c)
        stable = json.load(open('/opt/vp/BASELINE.json'))['stable']
        ids = [s.split('::')[0].replace('.', '/') + '.py::' + s.split('::')[1] for s in stable]
        try:
            r = subprocess.run([PY, '-m', 'pytest', '-q', '-x', '-p', 'no:cacheprovider', '-p', 'pytest_timeout', '--timeout=30'] + ids, cwd=c, env=env,
                               capture_output=True, timeout=200)
        except subprocess.TimeoutExpired:
            return {**m, 'state': 'tests'}
        if r.returncode:
            return {**m, 'state': 'tests'}
        out = os.path.join(c, 'mut.out')
        try:
            r = subprocess.run([PY, '-B', os.path.join(HERE, 'tools', 'probe.py'), out] + relevant(m['file']), cwd=c, env=env, capture_output=True, timeout=1200)
        except subprocess.TimeoutExpired:
            return {**m, 'state': 'probe timeout'}
        try:
            return {**m, **json.load(open(out))}
        except Exception:                                     # noqa: BLE001
            return {**m, 'state': 'probe error', 'err': r.stderr.decode()[-500:]}
    finally:
        shutil.copy(os.path.join(BASE, m['file']), os.path.join(c, m['file']))
        if os.path.exists(os.path.join(c, 'mut.out')):
            os.unlink(os.path.join(c, 'mut.out'))
        copies.append(c)


def main():
    if sys.argv[1] == 'list':
        r = []
        for f in sys.argv[3:] or sources():
            r += mutants(f, open(os.path.join(BASE, f), encoding='utf-8', newline='').read())
        random.Random(1).shuffle(r)
        json.dump(r, open(sys.argv[2], 'w'))
        print(len(r))
        return
    ms = json.load(open(sys.argv[2]))
    done = set()
    if os.path.exists(sys.argv[3]):
        for ln in open(sys.argv[3]):
            d = json.loads(ln)
            done.add((d['file'], d['a'], d['b'], d['new']))
    ms = [m for m in ms if (m['file'], m['a'], m['b'], m['new']) not in done]
    jobs = int(sys.argv[4]) if len(sys.argv) > 4 else 8
    root = tempfile.mkdtemp(prefix='mutants')
    copies = []
    for i in range(jobs):
        c = os.path.join(root, str(i))
        shutil.copytree(BASE, c, ignore=shutil.ignore_patterns('.git', 'docs', '*.ipynb'))
        copies.append(c)
    try:
        with ThreadPoolExecutor(jobs) as ex, open(sys.argv[3], 'a') as fh:
            for r in as_completed([ex.submit(run_one, m, copies) for m in ms]):
                fh.write(json.dumps(r.result()) + '\n')
                fh.flush()
    finally:
        shutil.rmtree(root)


if __name__ == '__main__':
    main()

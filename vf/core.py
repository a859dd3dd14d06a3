"""Runner: shards, batches, replay, evidence, known findings.

check.py <ID> [--replay FILE]          run one property
Environment: VERIF_SEED, VERIF_TIER (quick | thorough)."""
import collections
import hashlib
import importlib
import json
import os
import re
import resource
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback

from . import env
from . import jsonx
from .common import Violation

SHARDS = 8
CPU_LIMIT = 15            # seconds of CPU for one case; a case takes milliseconds
MEM_LIMIT = 3 << 30


class Hang(BaseException):
    pass


class Ctx:
    """What a case may use: the library and a scratch directory that is emptied
    after every case."""

    def __init__(self, pyuff, root):
        self.pyuff, self.root, self.n = pyuff, root, 0
        self.labels = set()
        self.trivial = False

    def path(self, name=None):
        self.n += 1
        return os.path.join(self.root, name or f'f{self.n}.uff')

    def label(self, *names):
        self.labels.update(names)

    def clear(self):
        self.n = 0
        self.labels = set()
        self.trivial = False
        for e in os.scandir(self.root):
            if e.is_dir(follow_symlinks=False):
                shutil.rmtree(e.path, ignore_errors=True)
            else:
                os.unlink(e.path)


FIRED = []
SLOW = 'no result within {} s of processor time'


def _on_timer(*_):
    FIRED.append(1)              # the library's bare except clauses turn Hang into something else
    raise Hang()


def run_case(mod, case, ctx):
    """Runs one case; raises Violation if the property does not hold for it."""
    ctx.clear()
    signal.signal(signal.SIGVTALRM, _on_timer)
    FIRED.clear()
    try:
        signal.setitimer(signal.ITIMER_VIRTUAL, getattr(mod, 'CPU_LIMIT', CPU_LIMIT), 0.5)
        try:
            mod.run(case, ctx)
        finally:
            signal.setitimer(signal.ITIMER_VIRTUAL, 0)
    except Hang:
        pass
    except Violation:
        if not FIRED:
            raise
    except Exception as e:                                   # noqa: BLE001
        if FIRED:
            raise Violation(SLOW.format(getattr(mod, 'CPU_LIMIT', CPU_LIMIT))) from None
        tb = traceback.extract_tb(e.__traceback__)
        in_lib = any(f.filename.startswith(env.REPO + os.sep) for f in tb)
        if in_lib or isinstance(e, (TypeError, ValueError, KeyError, IndexError, AttributeError)):
            where = tb[-1]
            raise Violation(f'unexpected {type(e).__name__}: {e} at {os.path.basename(where.filename)}:{where.name}') from e
        raise
    if FIRED:
        raise Violation(SLOW.format(getattr(mod, 'CPU_LIMIT', CPU_LIMIT)))


def _seed(*parts):
    return int.from_bytes(hashlib.sha256(repr(parts).encode()).digest()[:8], 'big')


def load_prop(pid):
    return importlib.import_module(f'vf.props.{pid.lower()}')


# ------------------------------------------------------------------- shard
def shard(pid, tier, seed, index, out, limit):
    pyuff = env.load()
    import hypothesis
    from hypothesis import given, settings, HealthCheck, Phase
    from hypothesis.internal.conjecture import engine
    engine.MAX_SHRINKING_SECONDS = 45
    resource.setrlimit(resource.RLIMIT_AS, (MEM_LIMIT, resource.getrlimit(resource.RLIMIT_AS)[1]))
    mod = load_prop(pid)
    total = mod.THOROUGH if tier == 'thorough' else mod.QUICK
    total = -(-total // SHARDS)
    batch = getattr(mod, 'BATCH', 250)
    root = tempfile.mkdtemp(prefix='case', dir=os.path.dirname(out))
    ctx = Ctx(pyuff, root)
    S = dict(evals=0, labels=collections.Counter(), hashes=set(), samples=[], failing=None, history=[], budget=False)
    t0 = time.monotonic()

    def execute(case):
        S['evals'] += 1
        s = jsonx.dumps(case)
        S['history'].append(s)
        del S['history'][:-60]
        try:
            run_case(mod, case, ctx)
        except Violation as v:
            S['failing'] = (s, str(v), len(S['history']))
            raise
        S['labels'].update(ctx.labels)
        if not ctx.trivial:
            S['hashes'].add(hashlib.blake2b(s.encode(), digest_size=8).hexdigest())
            if len(S['samples']) < 40 and len(s) < 3000 and (S['evals'] % 7 == 0 or S['evals'] > 200):
                S['samples'].append(s)
            if len(S['samples']) == 40:
                S['samples'] = S['samples'][::4]
        else:
            S['labels'].update(['trivial'])

    res = {'violation': None, 'error': None}
    try:
        strat = mod.strategy(tier)
        fixed = getattr(mod, 'fixed_cases', lambda tier: [])(tier)
        for i, case in enumerate(fixed):
            if i % SHARDS == index:
                try:
                    execute(case)
                except Violation as v:
                    s, msg, _ = S['failing']
                    res['violation'] = {'case': s, 'message': msg}
                    raise
        done = b = 0
        while done < total:
            n = min(batch, total - done)
            f = settings(max_examples=n, database=None, deadline=None, suppress_health_check=list(HealthCheck),
                         phases=[Phase.generate, Phase.shrink], report_multiple_bugs=False, print_blob=False)(
                hypothesis.seed(_seed(seed, pid, tier, index, b))(given(strat)(lambda case: execute(case))))
            S['history'] = []
            try:
                f()
            except Violation:
                s, msg, _ = S['failing']
                res['violation'] = {'case': s, 'message': msg}
                break
            except Exception as e:                        # noqa: BLE001
                if S['failing'] is not None:              # Flaky: depends on what ran before
                    s, msg, _ = S['failing']
                    res['violation'] = {'case': s, 'message': msg + ' (depends on the calls before it)', 'history': S['history']}
                    break
                raise e
            done += n
            b += 1
            if time.monotonic() - t0 > limit:
                S['budget'] = True
                break
    except Violation:
        pass
    except BaseException:                                  # noqa: BLE001
        res['error'] = traceback.format_exc()
    res.update(evals=S['evals'], labels=dict(S['labels']), hashes=sorted(S['hashes']), samples=S['samples'][:8], budget=S['budget'])
    shutil.rmtree(root, ignore_errors=True)
    with open(out + '.tmp', 'w') as fh:
        json.dump(res, fh)
    os.rename(out + '.tmp', out)


# ------------------------------------------------------------------ parent
def shard_env(mod, i):
    """What a shard's process differs in from the others: hash seed, and for some shards a locale that knows ASCII only."""
    e = {'PYTHONHASHSEED': str(i)}
    if getattr(mod, 'ASCII_SHARDS', True) and i in (3, 6):
        e.update(LC_ALL='C', LANG='C', PYTHONCOERCECLOCALE='0', PYTHONUTF8='0', PYTHONIOENCODING='ascii:strict')
    return e


def replay_doc(pid, mod, v):
    return {'property': pid, 'message': v['message'], 'case': json.loads(v['case']),
            'environment': v.get('environment', {}), **({'history': [json.loads(h) for h in v['history']]} if v.get('history') else {})}


def findings(pid):
    """Findings that known_findings.txt lists for this property: [(name, case file, text)]."""
    r = []
    p = os.path.join(env.HERE, 'known_findings.txt')
    for line in open(p, encoding='utf-8') if os.path.exists(p) else []:
        m = re.match(r'finding: property=(\S+) name=(\S+) input=(\S+) (.*)', line)
        if m and m.group(1) == pid:
            r.append(m.groups()[1:])
    return r


def report_findings(pid, mod, root):
    pyuff = env.load()
    n = 0
    for name, path, text in findings(pid):
        d = tempfile.mkdtemp(prefix='kf', dir=root)
        ctx = Ctx(pyuff, d)
        with open(os.path.join(env.HERE, path), encoding='utf-8') as fh:
            case = jsonx.dec(json.load(fh)['case'])
        so = os.dup(1)
        dn = os.open(os.devnull, os.O_WRONLY)
        sys.stdout.flush()
        os.dup2(dn, 1)
        fails = False
        try:
            run_case(mod, case, ctx)
        except Violation:
            fails = True
        finally:
            sys.stdout.flush()
            os.dup2(so, 1)
            os.close(so)
            os.close(dn)
        if fails:
            n += 1
            print(f'KNOWN-FINDING: property={pid} {name}: {text}', flush=True)
    return n


def check(pid):
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    tier = 'thorough' if os.environ.get('VERIF_TIER') == 'thorough' else 'quick'
    t0 = time.monotonic()
    mod = load_prop(pid)
    limit = 3000 if tier == 'thorough' else 240
    root = tempfile.mkdtemp(prefix=f'pyuff-{pid}-', dir=env.scratch_root())
    res, viol, err = [], None, None
    procs = []
    rp = os.path.join(env.HERE, 'evidence', f'{pid}.replay.json')
    if os.path.exists(rp):
        os.unlink(rp)
    try:
        kf = report_findings(pid, mod, root)
        for i in range(SHARDS):
            out = os.path.join(root, f's{i}.json')
            log = open(os.path.join(root, f's{i}.log'), 'wb')
            e = dict(os.environ, OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1', **shard_env(mod, i))
            p = subprocess.Popen([sys.executable, '-B', os.path.join(env.HERE, 'check.py'), pid, '--shard', str(i), out, str(seed), tier, str(limit)],
                                 stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=log, cwd=root, env=e, start_new_session=True)
            log.close()
            procs.append((p, out))
        pending = dict(enumerate(procs))
        end = t0 + limit + 420
        while pending:
            for i, (p, out) in list(pending.items()):
                if p.poll() is None:
                    continue
                del pending[i]
                if os.path.exists(out):
                    r = json.load(open(out))
                    res.append(r)
                    if r['violation'] and viol is None:
                        viol = dict(r['violation'], environment=shard_env(mod, i))
                    if r['error']:
                        err = r['error']
                else:
                    log = open(os.path.join(root, f's{i}.log'), errors='replace').read()[-1500:]
                    err = f'shard {i} ended with {p.returncode} and no result\n{log}'
            if viol:
                break
            if time.monotonic() > end and pending:
                err = 'shards did not end'
                break
            time.sleep(0.05)
    finally:
        for p, _ in procs:
            if p.poll() is None:
                try:
                    os.killpg(p.pid, signal.SIGKILL)
                except ProcessLookupError:
                    pass
            p.wait()
        shutil.rmtree(root, ignore_errors=True)
    hashes = set()
    labels = collections.Counter()
    samples = []
    for r in res:
        hashes.update(r['hashes'])
        labels.update(r['labels'])
        samples += r['samples'][:2]
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': getattr(mod, 'LEVEL', 'exploration'),
          'coverage': {'evaluations': sum(r['evals'] for r in res), 'distinct_nontrivial': len(hashes), 'rule': mod.RULE,
                       'samples': [json.loads(s) for s in samples[:6]], 'classes': dict(sorted(labels.items())),
                       'ended_by_time_budget': any(r['budget'] for r in res)},
          'assumptions': getattr(mod, 'ASSUMPTIONS', []), 'wall_s': round(time.monotonic() - t0, 2), 'violations': 1 if viol else 0}
    os.makedirs(os.path.join(env.HERE, 'evidence'), exist_ok=True)
    ep = os.path.join(env.HERE, 'evidence', f'{pid}.json')
    with open(ep + '.tmp', 'w') as fh:
        json.dump(ev, fh, indent=1)
    os.replace(ep + '.tmp', ep)
    if viol:
        with open(rp, 'w') as fh:
            json.dump(replay_doc(pid, mod, viol), fh)
        print(viol['message'][:600])
        print(f'VIOLATION property={pid} replay={rp}', flush=True)
        return 1
    if err:
        print(err, file=sys.stderr)
        return 2
    print(f'{pid}: held on {ev["coverage"]["evaluations"]} cases ({len(hashes)} distinct non-trivial), {ev["wall_s"]} s'
          + (f', {kf} known finding(s)' if kf else ''))
    return 0


def replay(pid, path):
    mod = load_prop(pid)
    doc = json.load(open(path))
    want = doc.get('environment', {})
    if any(os.environ.get(k) != v for k, v in want.items()):
        return subprocess.call([sys.executable, '-B', os.path.join(env.HERE, 'check.py'), pid, '--replay', os.path.abspath(path)], env=dict(os.environ, **want))
    root = tempfile.mkdtemp(prefix=f'pyuff-{pid}-', dir=env.scratch_root())
    try:
        ctx = Ctx(env.load(), root)
        for c in doc.get('history', []) + [doc['case']]:
            try:
                run_case(mod, jsonx.dec(c), ctx)
            except Violation as v:
                print(v)
                print(f'VIOLATION property={pid} replay={os.path.abspath(path)}')
                return 1
        print(f'{pid}: the case holds')
        return 0
    finally:
        shutil.rmtree(root, ignore_errors=True)


def main(argv):
    pid = argv[1]
    if '--shard' in argv:
        i, out, seed, tier, limit = argv[3:8]
        shard(pid, tier, int(seed), int(i), out, float(limit))
        return 0
    if '--replay' in argv:
        return replay(pid, argv[argv.index('--replay') + 1])
    return check(pid)

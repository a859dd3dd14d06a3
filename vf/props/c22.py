"""C22: a call leaves nothing behind but its result."""
import atexit
import gc
import io
import locale
import os
import random
import resource
import signal
import stat
import sys
import threading
import warnings
import weakref
import numpy as np
from hypothesis import strategies as st
from ..breakers import draw_breaker, breaks
from ..sets import O, TYPES
from ..items import VIA, Named, item, items, put, get
from ..foreign import parts, render
from ..common import Violation, clone, lib, require, show
from . import c12

RULE = ('Sequences of 1..8 calls on a file (own or foreign sets, unsupported ones, damaged content, missing; reached by a plain, linked or relative name, with permissions of its own, under different umasks): opening, index '
        'queries, reads (all, one, header only, out of range, of damaged sets), writes (add, overwrite, unwritable sets, unknown mode), fix_58b, prepare functions, conversion. After each call - also one that raised, while its '
        'exception is still held - no file is open that was not before, nothing outside the named file has changed, a call that reads has opened nothing for writing and left the time stamps alone, calls that '
        'succeed print nothing (fix_58b aside), and directory, environment, locale, numpy and warning settings, random states, handlers, limits, threads and exit handlers are as before; at the end, with objects and '
        'results dropped, no array of them is still alive. Non-trivial: at least two calls of which one reads or writes a set.')
QUICK, THOROUGH = 8000, 80000
BATCH = 200

EVENTS = []
WATCH = [False]
CHANGES = {'os.remove', 'os.rename', 'os.mkdir', 'os.rmdir', 'os.chmod', 'os.chown', 'os.link', 'os.symlink', 'os.truncate', 'os.utime', 'os.setxattr', 'os.removexattr',
           'shutil.copyfile', 'shutil.move', 'shutil.rmtree', 'tempfile.mkstemp', 'tempfile.mkdtemp', 'os.chdir', 'os.putenv', 'os.unsetenv'}
OUTSIDE = {'subprocess.Popen', 'os.system', 'os.exec', 'os.fork', 'os.posix_spawn', 'os.kill', 'os.startfile', 'socket.connect', 'socket.bind', 'urllib.Request'}


def _audit(event, args):
    if WATCH[0] and (event == 'open' or event in CHANGES or event in OUTSIDE):
        EVENTS.append((event, args))


@st.composite
def _case(draw):
    o = O(big=False, huge=200, mid=True, nmax58=12, uni=draw(st.integers(0, 3)) == 0)
    c = {'file': draw(parts(0, 4, TYPES, o)) if draw(st.integers(0, 4)) else None, 'link': draw(st.sampled_from(['no', 'no', 'soft', 'hard'])), 'perm': draw(st.sampled_from([0o644, 0o600, 0o664, 0o755])),
         'via': draw(st.sampled_from(VIA)), 'held': draw(st.booleans()), 'umask': draw(st.sampled_from([0o22, 0o77, 0o2, 0, 0o27])), 'err': draw(st.sampled_from([{'all': 'warn'}, {'all': 'warn', 'under': 'ignore'}, {'all': 'ignore'}, {'divide': 'warn', 'invalid': 'ignore', 'over': 'warn', 'under': 'ignore'}]))}
    if c['file'] and draw(st.integers(0, 3)) == 0:
        c['edits'] = draw(st.lists(st.tuples(st.integers(0, 10 ** 6), st.integers(0, 255)), min_size=1, max_size=6))
    ops = []
    for _ in range(draw(st.sampled_from([1, 2, 3, 4, 5, 6, 8]))):
        k = draw(st.sampled_from(['open', 'index', 'read', 'read', 'read', 'header', 'one', 'out', 'write', 'write', 'over', 'fail', 'fail', 'mode', 'fix', 'fixmissing', 'fixfail', 'prepare', 'prepare', 'convert', 'refresh', 'missing']))
        if k in ('write', 'over'):
            its = items(draw, 1, 2, o, TYPES)
            bad = draw(st.sampled_from([None, None, np.nan, np.inf, -np.inf]))
            for it in its:
                if it['d']['type'] == 58 and bad and np.asarray(it['d']['data']).dtype.kind in 'fc':
                    it['d']['data'] = np.array(it['d']['data'])
                    it['d']['data'][0] = bad
            ops.append([k, its])
        elif k == 'fail':
            it = item(draw, o, TYPES)
            ops.append([k, it, draw_breaker(draw, it), draw(st.sampled_from(['add', 'add', 'overwrite']))])
        elif k == 'prepare':
            q = draw(c12._case())
            ops.append([k, q] if q['kind'] != 'write' else ['index'])
        elif k == 'fixfail':
            ops.append([k, draw(st.sampled_from([['dir'], ['no', 'dir'], ['neighbour.uff', 'x']]))])
        elif k == 'convert':
            ops.append([k, items(draw, 0, 2, o, [2412, 2412, 58, 15])])
        elif k == 'one':
            ops.append([k, draw(st.integers(0, 9))])
        else:
            ops.append([k])
    c['ops'] = ops
    return c


def strategy(tier):
    return _case()


def settings():
    r = {'working directory': os.getcwd(), 'environment': dict(os.environ), 'numpy error handling': (np.geterr(), np.geterrcall()), 'numpy print options': {k: str(v) for k, v in np.get_printoptions().items()},
         'locale': locale.setlocale(locale.LC_ALL), 'random state': hash(random.getstate()), 'recursion limit': sys.getrecursionlimit(), 'search path': list(sys.path), 'threads': threading.active_count(),
         'exit handlers': atexit._ncallbacks(), 'garbage collection': (gc.isenabled(), gc.get_threshold()), 'hooks': (sys.excepthook, sys.displayhook, sys.gettrace(), sys.getprofile()),
         'switch interval': sys.getswitchinterval(), 'integer text limit': sys.get_int_max_str_digits()}
    s = np.random.get_state()
    r['numpy random state'] = (s[0], s[1].tobytes(), s[2:])
    r['signal handlers'] = [signal.getsignal(k) for k in (signal.SIGINT, signal.SIGTERM, signal.SIGALRM, signal.SIGPIPE, signal.SIGXFSZ)]
    r['limits'] = [resource.getrlimit(k) for k in (resource.RLIMIT_FSIZE, resource.RLIMIT_NOFILE, resource.RLIMIT_AS)]
    m = os.umask(0o77)
    os.umask(m)
    r['umask'] = m
    return r


def fds():
    r = {}
    for f in os.listdir('/proc/self/fd'):
        try:
            r[f] = os.readlink(f'/proc/self/fd/{f}')
        except OSError:
            pass
    return {k: v for k, v in r.items() if not v.startswith('/proc/')}


def tree(root):
    r = {}
    for a, ds, fs in os.walk(root):
        for n in ds + fs:
            p = os.path.join(a, n)
            s = os.lstat(p)
            r[os.path.relpath(p, root)] = (stat.S_IFMT(s.st_mode), stat.S_IMODE(s.st_mode), s.st_ino, s.st_nlink, s.st_mtime_ns if stat.S_ISREG(s.st_mode) else 0,
                                           os.readlink(p) if stat.S_ISLNK(s.st_mode) else get(p) if stat.S_ISREG(s.st_mode) else None)
    return r


class Watch:
    """A call of the library under observation."""

    def __init__(self, root):
        self.root = os.path.realpath(root)
        if not getattr(sys, '_vf_audit', False):
            sys._vf_audit = True
            sys.addaudithook(_audit)
            gc.collect()
            gc.freeze()

    def __call__(self, what, kind, own, fn, *a, ok=False, **k):
        """kind: 'read' | 'write' | 'none'; own: names (relative to root) that may change; ok: has to succeed"""
        before, files, state, mods, filters = fds(), tree(self.root), settings(), len(sys.modules), list(warnings.filters)
        o, e = sys.stdout, sys.stderr
        sys.stdout, sys.stderr = so, se = io.StringIO(), io.StringIO()
        EVENTS.clear()
        r, failed = None, None
        try:
            WATCH[0] = True
            try:
                r = fn(*a, **k)
            finally:
                WATCH[0] = False
            same = (sys.stdout is so, sys.stderr is se)
            after, state2 = fds(), settings()
        except Exception as ex:                             # noqa: BLE001
            same = (sys.stdout is so, sys.stderr is se)
            failed = f'{type(ex).__name__}: {ex}'
            after, state2 = fds(), settings()               # while the exception is alive
        finally:
            sys.stdout, sys.stderr = o, e
        what += ' (that raised)' if failed else ''
        if ok and failed:
            raise Violation(f'{what}: {failed}')
        new = {v for q, v in after.items() if before.get(q) != v}
        require(not new, f'{what}: still open: {[os.path.basename(v) for v in new]}')
        require(set(before) <= set(after), f'{what}: a file of the caller was closed')
        require(all(same), f'{what}: sys.stdout or sys.stderr was replaced')
        if len(sys.modules) == mods:
            require(list(warnings.filters) == filters, f'{what}: the warning filters were changed')
        for q in state:
            require(state[q] == state2[q], f'{what}: {q} changed: {show(state[q])} -> {show(state2[q])}')
        if not failed and kind != 'fix':
            require(not so.getvalue() and not se.getvalue(), f'{what}: printed {show(so.getvalue() + se.getvalue())}')
        for ev, args in list(EVENTS):
            if ev in OUTSIDE:
                raise Violation(f'{what}: {ev} {show(args)}')
            if ev == 'open':
                path, _, flags = args
                if not isinstance(path, (str, bytes, os.PathLike)):
                    continue
                path = os.path.realpath(os.fspath(path) if not isinstance(path, bytes) else os.fsdecode(path))
                if not (flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC)) or path == os.devnull:
                    continue
            elif ev in ('os.putenv', 'os.unsetenv', 'os.chdir') or not args or not isinstance(args[0], (str, os.PathLike)):
                continue
            else:
                path = os.path.realpath(args[0])
            require(kind in ('write', 'fix'), f'{what}: {ev} of {os.path.basename(path)} for writing')
            require(path.startswith(self.root + os.sep), f'{what}: {ev} of {path} for writing')
        files2 = tree(self.root)
        for q in sorted(set(files) | set(files2)):
            f, g = files.get(q), files2.get(q)
            if f == g:
                continue
            require(q in own, f'{what}: {q} was {"created" if f is None else "removed" if g is None else "changed"}')
            if f is not None and kind == 'write':
                require(g is not None, f'{what}: {q} was removed')
                require(f[:2] == g[:2], f'{what}: kind or permissions of {q} changed: {oct(f[0] | f[1])} -> {oct(g[0] | g[1])}')
        if 'target' in own and 'other' in files2:            # the name is a link
            require(files2.get('t.uff', (0,) * 6)[5] == files['t.uff'][5] if files['t.uff'][0] == stat.S_IFLNK else files2['other'][5] == files2['t.uff'][5],
                    f'{what}: the file is no longer reached through its other name')
        return r, failed


def arrays(v, out):
    if isinstance(v, np.ndarray):
        out.append(v)
        if v.dtype == object:
            for x in v.ravel():
                arrays(x, out)
    elif isinstance(v, dict):
        for x in v.values():
            arrays(x, out)
    elif isinstance(v, (list, tuple)):
        for x in v:
            arrays(x, out)


def run(c, ctx):
    mask = os.umask(c['umask'])
    try:
        with np.errstate(**c['err']), Named(ctx, c['via']) as UFF:
            refs = _run(c, ctx, UFF)
            if any(r() is not None for r in refs):
                gc.collect()
            left = [r() for r in refs if r() is not None]
            require(not left, f'{len(left)} array(s) of results or arguments are still alive after everything was dropped: {show(left[:1])}')
    finally:
        os.umask(mask)


def _run(c, ctx, UFF):
    P = ctx.pyuff
    p = ctx.path('t.uff')
    data, model = None, []
    if c['file'] is not None:
        tmp = os.path.join(ctx.root, 'tmp')
        os.mkdir(tmp)
        save, ctx.root = ctx.root, tmp
        data, model, _ = render(ctx, c['file'])
        ctx.root = save
        for q in os.listdir(tmp):
            os.unlink(os.path.join(tmp, q))
        os.rmdir(tmp)
        if c.get('edits'):
            b = bytearray(data)
            for pos, v in c['edits']:
                if b:
                    b[pos % len(b)] = v
            data = bytes(b)
    damaged = bool(c.get('edits'))
    own = {'t.uff'}
    if data is not None:
        if c['link'] == 'soft':
            os.mkdir(os.path.join(ctx.root, 'd'))
            put(os.path.join(ctx.root, 'd', 'real.uff'), data)
            os.chmod(os.path.join(ctx.root, 'd', 'real.uff'), c['perm'])
            os.symlink(os.path.join('d', 'real.uff'), p)
            own = {'d/real.uff'}
        else:
            put(p, data)
            os.chmod(p, c['perm'])
            if c['link'] == 'hard':
                os.link(p, os.path.join(ctx.root, 'other'))
                own = {'t.uff', 'other', 'target'}
    put(ctx.path('neighbour.uff'), b'not to be touched\n')
    watch = Watch(ctx.root)
    kept, weak = [], []

    def keep(r):
        a = []
        arrays(r, a)
        for v in a:
            try:
                weak.append(weakref.ref(v))
            except TypeError:
                pass
        if c['held']:
            kept.append(r)

    u = watch('UFF()', 'read', (), UFF, p, ok=True)[0]
    n, io_ops = 0, 0
    for j, op in enumerate(c['ops']):
        k = op[0]
        w = f'call {j} ({k})'
        ctx.label(k)
        exists = os.path.exists(p)
        if k == 'open':
            u = watch(w, 'read', (), UFF, p, ok=True)[0]
        elif k == 'missing':
            watch(w, 'read', (), lambda: P.UFF(os.path.join(ctx.root, 'no such file')).read_sets())
        elif k == 'refresh':
            watch(w, 'read', (), u.refresh, ok=True)
        elif k == 'index':
            watch(w, 'read', (), lambda: (u.get_n_sets(), u.get_set_types(), u.get_set_formats(), u.get_file_name(), u.file_exists(), u.get_status(), u.get_supported_sets()), ok=True)
        elif k in ('read', 'header'):
            r, f = watch(w, 'read', (), u.read_sets, header_only=k == 'header', ok=exists and not damaged)
            keep(r)
            io_ops += 1
        elif k == 'one':
            n = u.get_n_sets()
            r, f = watch(w, 'read', (), u.read_sets, op[1] % n if n else 0, ok=bool(n) and not damaged)
            keep(r)
            io_ops += 1
        elif k == 'out':
            watch(w, 'read', (), u.read_sets, u.get_n_sets() + 2)
        elif k in ('write', 'over'):
            ds = [clone(it['d']) for it in op[1]]
            keep(ds)
            _, f = watch(w, 'write', own, u.write_sets, ds, 'overwrite' if k == 'over' else 'add', force_double=op[1][0]['fd'], ok=True)
            damaged = damaged and k != 'over'
            io_ops += 1
            del ds
        elif k == 'fail':
            d = breaks(op[1], op[2])
            keep(d)
            watch(w, 'write', own, u.write_sets, d, op[3], force_double=op[1]['fd'])
            io_ops += 1
            del d
        elif k == 'mode':
            watch(w, 'write', (), u.write_sets, {'type': 15, 'node_nums': [1], 'x': [0.], 'y': [0.], 'z': [0.]}, 'append')
        elif k == 'fix':
            if exists:
                watch(w, 'fix', ('fixed.out',), P.fix_58b, p, os.path.join(ctx.root, 'fixed.out'))
        elif k == 'fixfail':
            if exists:
                os.makedirs(os.path.join(ctx.root, 'dir'), exist_ok=True)
                watch(w, 'fix', (), P.fix_58b, p, os.path.join(ctx.root, *op[1]))
        elif k == 'fixmissing':
            watch(w, 'read', (), P.fix_58b, os.path.join(ctx.root, 'no such file'))
        elif k == 'prepare':
            watch(w, 'none', (), prepared, P, op[1])
        elif k == 'convert':
            f = P.pyuff.convert_dataset_2412_to_82 if hasattr(P.pyuff, 'convert_dataset_2412_to_82') else P.tools.convert_dataset_2412_to_82
            ds = [clone(it['d']) for it in op[1]]
            watch(w, 'none', (), f, ds)
            del ds
        if damaged or (data is not None and c['file']['tail'] == 'unfinished'):
            damaged = damaged or k in ('write', 'over')      # what an added set then belongs to is not the matter here
    ctx.trivial = len(c['ops']) < 2 or not io_ops
    ctx.label('link ' + c['link'], 'damaged' if c.get('edits') else 'undamaged' if data is not None else 'no file')
    del u, kept
    return weak


def prepared(P, q):
    if q['kind'] == 'groups':
        return c12.fn(P, f'prepare_{q["t"]}'[8:])(clone(q['gs']), return_full_dict=q['full'])
    key = int(q['key']) if q['key'].isdigit() else q['key']
    return c12.fn(P, key)(**clone(q['args']), return_full_dict=q['full'])

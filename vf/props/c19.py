"""C19: the reported index of a file always matches the file."""
import os
import resource
import signal
from hypothesis import strategies as st
from ..sets import O, TYPES
from ..items import VIA, Named, item, write, put, get
from ..foreign import parts, render, fmt
from ..common import lib, require

RULE = ('Sequences of 1..6 states of one file, each made of 0..5 parts (sets of all types rendered by the library or by the independent writer, unsupported '
        'sets, text between sets that resembles delimiters, an unfinished last set, no last line end), the file named absolutely, relatively or by keyword; or emptied, deleted, re-created, its parts put in another order (at times with the same time of modification), or changed by '
        'write_sets; one sparse file with sets behind its first 2 GiB; after each, the index of the refreshed object, of a new one and, where the object says it is not up to date, of the object as it is. '
        'Non-trivial: at least one set in one of the states.')
QUICK, THOROUGH = 12000, 120000
BATCH = 200


@st.composite
def _case(draw):
    n = draw(st.integers(1, 6))
    ops = []
    for _ in range(n):
        k = draw(st.sampled_from(['put'] * 6 + ['empty', 'delete', 'delete', 'turn', 'turn', 'turn', 'write', 'write', 'overwrite', 'unsupported', 'blank']))
        if k == 'put':
            ops.append((k, draw(parts())))
        elif k in ('write', 'overwrite'):
            ops.append((k, item(draw, O(big=False, nmax58=9), TYPES + [58] * 6)))
        else:
            ops.append((k,))
    return {'ops': ops, 'stamp': draw(st.integers(0, 2)) == 0, 'via': draw(st.sampled_from(VIA)), 'ask': draw(st.lists(st.sampled_from(['n', 't', 'f', 's']), min_size=1, max_size=4)), 'start': draw(st.booleans())}


def strategy(tier):
    return _case()


def fixed_cases(tier):
    return [{'far': 2 ** 31 + 12345}]


def far(c, ctx):
    """Sets behind the first 2 GiB of a (sparse) file."""
    free = [int(v.split()[1]) for v in open('/proc/meminfo') if v.startswith('MemAvailable:')] + [0]
    if free[0] < 12 << 20 or os.statvfs(ctx.root).f_bavail * os.statvfs(ctx.root).f_frsize < 1 << 32:
        ctx.trivial = True
        ctx.label('skipped: not enough memory for a file of 2 GiB')
        return
    lim = resource.getrlimit(resource.RLIMIT_AS)
    try:
        resource.setrlimit(resource.RLIMIT_AS, (lim[1], lim[1]))
        signal.setitimer(signal.ITIMER_VIRTUAL, 120, 1)
        p = ctx.path('far.uff')
        ds = [{'type': 82, 'trace_num': k, 'nodes': [k, k + 1, 0]} for k in range(3)]
        u = lib('UFF', ctx.pyuff.UFF, p)
        lib('write_sets', u.write_sets, ds[0])
        with open(p, 'r+b') as fh:
            fh.truncate(c['far'])
            fh.seek(0, 2)
            fh.write(b'\n')
        try:
            lib('refresh', u.refresh)
            model = [(None, 82, 0)]
            for d in ds[1:]:
                lib('write_sets', u.write_sets, d)
                model.append((None, 82, 0))
            look(u, model, True, 'file of more than 2 GiB', 'ntfs')
            for k in (1, 2, 0):
                d = lib('read_sets', u.read_sets, k)
                require(d['trace_num'] == k and list(d['nodes']) == [k, k + 1, 0], f'file of more than 2 GiB: set {k} reads as {d}')
        except MemoryError:
            ctx.label('skipped: not enough memory for a file of 2 GiB')
    finally:
        resource.setrlimit(resource.RLIMIT_AS, lim)
    ctx.label('file of more than 2 GiB')


def run(c, ctx):
    if 'far' in c:
        far(c, ctx)
        return
    with Named(ctx, c.get('via', 'name')) as UFF:
        _run(c, ctx, UFF)


def _run(c, ctx, UFF):
    p = ctx.path('index.uff')
    u = lib('UFF', UFF, p) if c['start'] else None
    model, exists, some, unfin, last = [], False, 0, False, None
    for step, op in enumerate(c['ops']):
        w = f'step {step} ({op[0]})'
        ctx.label(op[0])
        wrote = False
        if op[0] == 'turn':                                 # the same parts in another order: mostly the same size
            if last is None:
                continue
            last = dict(last, parts=last['parts'][1:] + last['parts'][:1])
            data, model, unfin = render(ctx, last)
            put(p, data)
            exists = True
        elif op[0] == 'put':
            last = op[1]
            data, model, unfin = render(ctx, op[1])
            for q in op[1]['parts']:
                ctx.label(q[0])
            ctx.label('tail ' + op[1]['tail'])
            put(p, data)
            exists = True
        elif op[0] == 'empty':
            put(p, b'')
            model, exists, unfin = [], True, False
        elif op[0] == 'blank':
            put(p, b'\n \r\nno set here    -1 x\n')
            model, exists, unfin = [], True, False
        elif op[0] == 'delete':
            if exists:
                os.unlink(p)
            model, exists, unfin = [], False, False
        else:
            if u is None:
                u = lib('UFF', UFF, p)
            before = get(p)
            if op[0] == 'unsupported':
                lib(w, u.write_sets, {'type': 9999, 'a': 1})
                wrote = True
                if before is not None:
                    require((get(p) or b'').rstrip() == before.rstrip(), f'{w}: content changed')
                exists = get(p) is not None
            else:
                if op[0] == 'overwrite':
                    model, unfin = [], False
                write(u, [op[1]], 'overwrite' if op[0] == 'overwrite' else 'add')
                model = model + [(None, op[1]['d']['type'], fmt(op[1]))]
                exists = wrote = True
                if unfin and op[0] != 'overwrite':          # whatever the unfinished set is taken for: as in a new object
                    agree(u, UFF(p), w)
                    return
        some += len(model)
        if c.get('stamp') and exists:                      # a copy that keeps the time, or two changes within one tick of the clock
            os.utime(p, ns=(10 ** 18, 10 ** 18))
        data = get(p)
        v = lib(f'{w}: UFF', UFF, p)
        look(v, model, exists, f'{w}: new object', 'ntfs')
        if u is None:
            u = v
        elif wrote:
            look(u, model, exists, f'{w}: object that wrote', c['ask'])
        else:
            if not u.get_status() and exists:
                # not up to date by its own account: brings itself up to date when asked
                first = c['ask'][0]
                if first != 's':
                    look(u, model, exists, f'{w}: object without refresh', [first])
            r = lib(f'{w}: refresh', u.refresh)
            require(bool(r) == exists, f'{w}: refresh() returned {r}')
            require(u.get_status() == exists, f'{w}: status {u.get_status()} after refresh')
            look(u, model, exists, f'{w}: refreshed object', c['ask'])
            look(u, model, exists, f'{w}: refreshed object', 'ntfs')
        require(get(p) == data, f'{w}: the file was changed by looking at it')
        require(u.get_file_name() == UFF.name(p), f'{w}: file name {u.get_file_name()}')
    ctx.trivial = not some


def agree(a, b, w):
    for k in ('get_n_sets', 'get_set_types', 'get_set_formats'):
        x, y = getattr(a, k)(), getattr(b, k)()
        x, y = [int(v) for v in x] if k != 'get_n_sets' else x, [int(v) for v in y] if k != 'get_n_sets' else y
        require(x == y, f'{w}: {k}() {x}, in a new object {y}')


def look(u, model, exists, w, ask):
    for a in ask:
        if a == 'n':
            require(u.get_n_sets() == len(model), f'{w}: {u.get_n_sets()} sets, expected {len(model)}')
        elif a == 't':
            t = [int(v) for v in u.get_set_types()]
            require(t == [m[1] for m in model], f'{w}: types {t}, expected {[m[1] for m in model]}')
        elif a == 'f':
            f = [int(v) for v in u.get_set_formats()]
            require(f == [m[2] for m in model], f'{w}: formats {f}, expected {[m[2] for m in model]} (types {[m[1] for m in model]})')
        else:
            require(u.get_status() == exists, f'{w}: status {u.get_status()}')
            require(u.file_exists() == exists, f'{w}: file_exists() {u.file_exists()}')

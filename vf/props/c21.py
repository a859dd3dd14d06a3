"""C21: the bytes of a set depend on its content only."""
import numpy as np
from hypothesis import strategies as st
from ..breakers import draw_breaker, breaks
from ..gens import flavour
from ..sets import O, TYPES
from ..items import VIA, Named, item, items, read, put, get, nontriv
from .c13 import spoil
from ..common import clone, lib, require, show

RULE = ('1..4 sets of all types are written one by one to new files - the reference - and again in a drawn history: in calls of drawn sizes, through one or several '
        'objects, with the mode spelled in several ways, into a new file, behind other sets, behind text with and without a last line end or over other content, with reads, index queries, writes to '
        'other files and failing writes in between, and with the same content in another form (order of the entries, lists, tuples, strided, read-only and byte-swapped arrays, numpy numbers, entries of no meaning). '
        'The file has to be what was there plus the reference bytes in order. Non-trivial: more than one set, or other content before, or another form of the set.')
QUICK, THOROUGH = 9600, 120000
BATCH = 200

FORMS = ['nd', 'list', 'tuple', 'strided', 'ro', 'rev', 'swapped', 'narrow', 'scalars', 'keep', 'keep', 'keep']
DATES = ('date_db_created', 'time_db_created', 'date_db_saved', 'time_db_saved')


@st.composite
def _case(draw):
    o = O(big=draw(st.integers(0, 9)) == 0, huge=400, nmax58=draw(st.sampled_from([12, 12, 40, 300])), uni=draw(st.integers(0, 2)) == 0)
    types = draw(st.sampled_from([TYPES, TYPES, [58], [58, 15, 55], [draw(st.sampled_from(TYPES))]]))
    its = items(draw, 1, 4, o, types)
    for it in its:
        d = it['d']
        if d['type'] == 151:                                # the current date by default
            for k in DATES + (() if {'date_db_written', 'date_file_written'} & set(d) else ('date_db_written',)) \
                    + (() if {'time_db_written', 'time_file_written'} & set(d) else ('time_db_written',)):
                d.setdefault(k, '01-Jan-01' if k.startswith('date') else '01:02:03')
    ways = []
    for it in its:
        ways.append({'order': draw(st.one_of(st.none(), st.integers(0, 2 ** 32 - 1))), 'form': draw(st.sampled_from(FORMS)),
                     'num': draw(st.sampled_from([None, None, 'np', 'py'])), 'extra': draw(st.sampled_from([0, 0, 1, 2, 3]))})
    calls, left = [], len(its)
    noise = st.lists(st.sampled_from(['read', 'query', 'refresh', 'other', 'fail', 'failhere', 'header']), max_size=2)
    while left:
        k = draw(st.integers(1, left))
        calls.append({'n': k, 'new': draw(st.booleans()), 'mode': draw(st.sampled_from(['add', 'add', 'Add', 'ADD'])), 'noise': draw(noise)})
        left -= k
    start = draw(st.sampled_from(['none', 'none', 'empty', 'sets', 'sets', 'text', 'line', 'over', 'over']))
    c = {'its': its, 'ways': ways, 'calls': calls, 'start': start, 'via': draw(st.sampled_from(VIA)), 'other': item(draw, O(big=False, nmax58=9), TYPES)}
    if start in ('sets', 'over'):
        c['pre'] = items(draw, 1, 2, O(big=False, nmax58=9), TYPES)
    c['tail'] = draw(st.sampled_from(TAILS)).encode() if start != 'none' else b''
    if start == 'over':
        c['calls'][0]['mode'] = draw(st.sampled_from(['overwrite', 'overwrite', 'Overwrite', 'OVERWRITE']))
    v = item(draw, O(big=False, nmax58=9), TYPES)
    c['broken'] = v
    c['brk'] = draw_breaker(draw, v)
    return c


def strategy(tier):
    return _case()


TAILS = [''] * 9 + ['\n', '\n\n', '\n\n\n', '\r\n', '\r\n\r\n', '\r', ' ', '   \n', '\t', '\x1a', '\x00', 'x', 'text\n\n', ' ' * 80 + '\n', 'é\n', 'é', '\u4e2d', '\u2028', '\x85', '\x0c', '\n  ']


def plain_numbers(v):
    return isinstance(v, (list, tuple)) and len(v) > 0 and all(isinstance(x, (int, float, complex, np.number)) and not isinstance(x, bool) for x in v)


def other_form(d, w, top=True):
    """The same content in another form."""
    keys = list(d)
    if w['order'] is not None and not (d.get('type') == 2412 and 'element_nums' not in d):      # (kinds of elements are written in their order)
        keys = [keys[i] for i in np.random.default_rng(w['order']).permutation(len(keys))]
    r = {}
    for k in keys:
        v = d[k]
        if isinstance(v, np.ndarray) and v.ndim == 1 and v.dtype.kind in 'iufc' or plain_numbers(v):
            if not isinstance(v, np.ndarray) and any(type(x) is not type(v[0]) for x in v):
                v = clone(v)
            else:
                single = np.asarray(v).dtype.kind in 'fc' and np.asarray(v).dtype.itemsize == (4 if np.asarray(v).dtype.kind == 'f' else 8)
                f = w['form']
                if d.get('type') == 2414 and f not in ('nd', 'strided', 'ro', 'rev'):
                    f = 'keep'                             # (written from arrays only)
                if f == 'keep' or not len(v) or single and f in ('list', 'tuple') or np.asarray(v).dtype.kind in 'iu' and f in ('narrow', 'scalars', 'swapped') and k in ('x', 'data'):
                    v = clone(v)                           # other numbers, not another form of them
                elif isinstance(v, np.ndarray) or f in ('nd', 'list', 'tuple', 'ro', 'strided', 'rev', 'scalars'):
                    v = flavour(v, f)
                else:
                    v = clone(v)
        elif k == 'groups' and isinstance(v, list):
            v = [other_form(g, w, False) for g in v]
        elif type(v) is int and w['num'] == 'np' and k != 'type' and isinstance(k, str) and abs(v) < 2 ** 62:
            v = np.int64(v)
        elif type(v) is float and w['num'] == 'np':
            v = np.float64(v)
        elif type(v) in (np.int64, np.float64) and w['num'] == 'py':
            v = v.item()
        else:
            v = clone(v)
        r[k] = v
    if top:
        for i in range(w['extra']):
            r[['remark', 'my own entry', 'Origin'][i]] = ['kept', 5, [1, 'a']][i]
    return r


def run(c, ctx):
    with Named(ctx, c['via']) as UFF:
        _run(c, ctx, UFF)


def _run(c, ctx, UFF):
    its = c['its']
    fd = its[0]['fd']
    ref = []
    for it in its:
        q = ctx.path()
        lib(f'write_sets (type {it["d"]["type"]})', ctx.pyuff.UFF(q).write_sets, clone(it['d']), 'overwrite', force_double=fd)
        ref.append(get(q))
    p = ctx.path('t.uff')
    s = c['start']
    base = b''
    if s in ('sets', 'over'):
        for it in c['pre']:
            lib('write_sets', UFF(p).write_sets, clone(it['d']), 'add', force_double=it['fd'])
        base = get(p)
    elif s != 'none':
        base = {'empty': b'', 'text': b'some text\r\n\n', 'line': b'text without an end'}[s]
        put(p, base)
    if c['tail']:                                           # something behind the last set
        base += c['tail']
        put(p, base)
    exp = b'' if s == 'over' else base + (b'\n' if base and base[-1:] not in (b'\n', b'\r') else b'')
    ds = [other_form(it['d'], w) for it, w in zip(its, c['ways'])]
    u, at = UFF(p), 0
    for j, q in enumerate(c['calls']):
        if q['new']:
            u = UFF(p)
        for z in q['noise']:
            noise(c, ctx, u, p, z)
        part = ds[at:at + q['n']]
        what = f'call {j} (types {[d["type"] for d in part]} with {q["mode"]})'
        lib(what, u.write_sets, part if len(part) > 1 or q['n'] % 2 == 0 else part[0], q['mode'], force_double=fd)
        exp += b''.join(ref[at:at + q['n']])
        at += q['n']
        if q['new']:
            for d in part:
                spoil(d)                                   # changed by the caller after it was written
        out = get(p)
        require(out == exp, f'{what}: the bytes of the file are not those of the sets alone {diff(exp, out)}')
    for d in ds:
        spoil(d)
    for k, it in enumerate(its):
        q = ctx.path()
        lib(f'write_sets (type {it["d"]["type"]})', ctx.pyuff.UFF(q).write_sets, clone(it['d']), 'overwrite', force_double=fd)
        require(get(q) == ref[k], f'set {k} (type {it["d"]["type"]}): other bytes after the calls than before them {diff(ref[k], get(q))}')
    ctx.trivial = len(its) == 1 and s in ('none', 'empty') and all(w['order'] is None and w['form'] == 'keep' and not w['num'] and not w['extra'] for w in c['ways'])
    ctx.label('start ' + s, f'{len(c["calls"])} calls', *(f'form {w["form"]}' for w in c['ways']))
    nontriv(ctx, its)


def noise(c, ctx, u, p, z):
    ctx.label('between: ' + z)
    if z == 'query':
        u.get_n_sets(), u.get_set_types(), u.get_set_formats(), u.get_status(), u.get_supported_sets()
    elif z == 'refresh':
        u.refresh()
    elif z in ('read', 'header'):
        try:
            u.read_sets(header_only=z == 'header')
        except Exception:                                   # noqa: BLE001
            require(get(p) is None, 'reading failed')
    elif z == 'other':
        lib('a write to another file', ctx.pyuff.UFF(ctx.path('o.uff')).write_sets, clone(c['other']['d']), 'overwrite', force_double=c['other']['fd'])
    else:                                                   # a write that fails, to this or to another file
        before = get(p)
        if z == 'failhere' and (before is None or before[-1:] not in (b'', b'\n')):
            z = 'fail'                                      # (a refused write may leave a line end and an empty file)
        v = u if z == 'failhere' else ctx.pyuff.UFF(ctx.path('b.uff'))
        try:
            v.write_sets(breaks(c['broken'], c['brk']), 'add', force_double=c['broken']['fd'])
        except Exception:                                   # noqa: BLE001
            pass
        if z == 'failhere':
            require(get(p) == before, 'the failed write left bytes in the file')


def diff(a, b):
    b = b or b''
    i = next((i for i, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
    return f'(at byte {i} of {len(a)}/{len(b)}: {show(a[i:i + 30])} / {show(b[i:i + 30])})'

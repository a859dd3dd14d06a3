"""C10: a write that fails raises and costs no data already in the file."""
import os
import resource
from hypothesis import strategies as st
from ..breakers import draw_breaker, breaks
from ..sets import O, TYPES
from ..items import item, items, fields, write, read, aslist, put, get, encode, enc_item, enc_fields
from ..common import Violation, check_fields, clone, lib, require, same

LEVEL = 'fault_enumeration'
RULE = ('A file with 0..3 earlier sets (own or foreign rendering, with or without last line end) receives a call of 1..4 sets of which one cannot be '
        'written - a breaker drawn from all (field, kind of unusable value, position) combinations that apply to it - or whose bytes exceed a size '
        'limit set at a drawn offset, or that is refused as a whole (unknown mode, nothing to write, not a set, unreachable file); add and overwrite. '
        'The call has to raise, the earlier and the completed sets have to read back unchanged, nothing else may be indexed, and a following valid '
        'write through the same and a new object has to work. Non-trivial: the failing set is not the first thing in the file.')
QUICK, THOROUGH = 10400, 120000
BATCH = 200
ASSUMPTIONS = ['"the file cannot grow" is simulated with RLIMIT_FSIZE (EFBIG from write), in process, at a drawn byte offset']


@st.composite
def _case(draw):
    o = O(big=False, nmax58=9, huge=60, mid=True)
    fault = draw(st.sampled_from(['break'] * 6 + ['size'] * 4 + ['mode', 'nothing', 'nodict', 'place']))
    c = {'fault': fault, 'mode': draw(st.sampled_from(['add', 'add', 'add', 'overwrite'])),
         'kept': draw(st.booleans()), 'again': draw(st.booleans())}
    if draw(st.integers(0, 3)):
        if draw(st.booleans()):
            c['pre'] = [item(draw, o, TYPES + [58]) for _ in range(draw(st.integers(1, 3)))]
        else:
            c['pre'] = [enc_item(draw, o, TYPES + [58]) for _ in range(draw(st.integers(1, 2)))]
            c['eol'] = draw(st.booleans())
    else:
        c['pre'] = []
    types = draw(st.sampled_from([TYPES, TYPES, [58], [55, 2414, 2412, 2467]]))
    c['its'] = items(draw, 1, 3, o, types)
    c['at'] = draw(st.integers(0, len(c['its']) - 1))
    c['cont'] = item(draw, o, TYPES)
    if fault == 'break':
        c['brk'] = draw_breaker(draw, c['its'][c['at']])
    elif fault == 'size':
        c['frac'] = draw(st.one_of(st.integers(0, 1000), st.sampled_from([0, 1, 3, 500, 999, 1000])))
    elif fault == 'mode':
        c['bad'] = draw(st.sampled_from(['append', 'w', '', 'replace', 'add ', 'overwrit', 'a', 'overwritten', 'overwrite ', 'overwrite-all', 'added', 'ADD!', ' add', 'd', 'wb', 'r+',
                                    'add overwrite', 'over', 'write', 'Overwrite_', 'x', 'at']))
    elif fault == 'nodict':
        c['bad'] = draw(st.sampled_from([None, 5, 'abc', {}, {'id1': 'x'}, {'Type': 58}]))
    elif fault == 'place':
        c['bad'] = draw(st.sampled_from(['dir', 'missing']))
    return c


def strategy(tier):
    return _case()


def attempt(c, ctx, u, ds, mode, limit=None):
    old = resource.getrlimit(resource.RLIMIT_FSIZE)
    try:
        if limit is not None:
            resource.setrlimit(resource.RLIMIT_FSIZE, (limit, old[1]))
        u.write_sets(ds, mode, force_double=c['its'][0]['fd'])
    except Exception as e:                                  # noqa: BLE001
        return e
    finally:
        if limit is not None:
            resource.setrlimit(resource.RLIMIT_FSIZE, old)
    return None


def run(c, ctx):
    UFF = ctx.pyuff.UFF
    p = ctx.path('f.uff')
    pre, its = c['pre'], c['its']
    if pre and 's' in pre[0]:
        data = b''.join(encode(i) for i in pre)
        put(p, data if c['eol'] else data.rstrip(b'\r\n'))
        pf = [(i['d']['type'], enc_fields(i)) for i in pre]
    else:
        for i in pre:
            write(UFF(p), [i])
        pf = [(i['d']['type'], fields(i)) for i in pre]
    nf = [(i['d']['type'], fields(i)) for i in its]
    u = lib('UFF', UFF, p)
    before = get(p)
    ctx.label(c['fault'], c['mode'])

    def state(accept, w):
        """The file holds exactly one of the accepted lists of sets."""
        for v in ([u] if c['kept'] else []) + ([lib('UFF', UFF, p)]):
            n = lib(f'{w}: get_n_sets', v.get_n_sets)
            ty = [int(x) for x in v.get_set_types()]
            ok = [a for a in accept if [x[0] for x in a] == ty]
            require(n == len(ty) and ok, f'{w}: types {ty} in the file, expected {[[x[0] for x in a] for a in accept]}')
            if not n:
                continue
            g = aslist(read(v, what=f'{w}: read_sets'), w, n)
            err = None
            for a in ok:
                try:
                    for k, (x, y) in enumerate(zip(g, a)):
                        check_fields(x, y[1], f'{w}: set {k} (type {y[0]})')
                    err = None
                    break
                except Violation as e:
                    err = e
            if err:
                raise err

    fault = c['fault']
    at = 0
    if fault == 'place':
        if c['bad'] == 'dir':
            q = ctx.path('d')
            os.mkdir(q)
        else:
            q = os.path.join(ctx.path('nodir'), 'f.uff')
        try:
            v = UFF(q)
            e = attempt(c, ctx, v, [clone(i['d']) for i in its], c['mode'])
        except Exception as x:                              # noqa: BLE001
            e = x
        require(e is not None, f'writing to a {c["bad"]} did not raise')
        state([pf], 'after the failed write elsewhere')
        accept = pf
    elif fault in ('mode', 'nothing'):
        ds = [clone(i['d']) for i in its] if fault == 'mode' else []
        e = attempt(c, ctx, u, ds, c['bad'] if fault == 'mode' else c['mode'])
        require(e is not None, f'{fault}: write_sets did not raise')
        require((get(p) or b'') == (before or b''), f'{fault}: the refused call changed the file')
        state([pf], fault)
        accept = pf
    else:
        at = c['at']
        ds = [clone(i['d']) for i in its]
        limit = None
        if fault == 'break':
            ds[at] = breaks(its[at], c['brk'])
            what = f"{'/'.join(map(str, c['brk']['path']))} {c['brk']['what']} of type {its[at]['d']['type']}"
        elif fault == 'nodict':
            ds[at] = clone(c['bad'])
            what = f'{c["bad"]!r} instead of a set'
        else:
            w = ctx.path('ref.uff')
            sizes = []
            for i in its:
                write(UFF(w), [i])
                sizes.append(os.path.getsize(w))
            base = 0 if c['mode'] == 'overwrite' else len(before or b'') + (1 if before and before[-1:] not in (b'\n', b'\r') else 0)
            lo = sizes[at - 1] if at else 0
            limit = base + min(sizes[at] - 1, lo + (sizes[at] - lo) * c['frac'] // 1000)
            what = f'size limit {limit} of {base + sizes[-1]}'
        e = attempt(c, ctx, u, ds if len(ds) > 1 else ds[0], c['mode'], limit)
        require(e is not None, f'{what}: write_sets did not raise')
        done = nf[:at]
        accept = [pf + done] if c['mode'] == 'add' else [done] if done else [[], pf]
        state(accept, f'after the failed write ({what})')
        accept = accept[0] if len(accept) == 1 or lib('UFF', UFF, p).get_n_sets() != len(pf) or not pf else pf
        if c['again']:
            e = attempt(c, ctx, u, ds if len(ds) > 1 else ds[0], 'add', limit if limit is None else os.path.getsize(p))
            require(e is not None, f'{what}: the second attempt did not raise')
            accept = accept + (done if limit is None else [])
            state([accept], f'after the second failed write ({what})')
    v = u if c['kept'] else lib('UFF', UFF, p)
    write(v, [c['cont']], what='the valid write after the failed one')
    accept = accept + [(c['cont']['d']['type'], fields(c['cont']))]
    state([accept], 'after the next valid write')
    ctx.trivial = not (pre or at)

"""C01: dataset 58 round trip over the 16 storage forms."""
import numpy as np
from hypothesis import strategies as st
from ..sets import T, O
from ..items import item, check_sets, write, read, fields
from ..common import check_fields, lib, require

RULE = ('A dataset-58 record (form drawn from real/complex x even/uneven x ASCII/binary x single/double, all header fields, 2..20000 samples) is '
        'written to a new file or after/over an earlier set and read back. Non-trivial: the signal is not'
        ' constant.')
QUICK, THOROUGH = 19200, 150000


@st.composite
def _case(draw):
    o = O(uni=draw(st.sampled_from([False, False, True])))
    c = {'it': item(draw, o, [58]), 'pos': draw(st.sampled_from(['new', 'new', 'new-ow', 'add', 'add', 'overwrite', 'list'])),
         'same': draw(st.booleans())}
    if c['pos'] in ('add', 'overwrite', 'list'):
        c['pre'] = item(draw, O(nmax58=5, big=False), [58, 58, 82, 15], fd=c['it']['fd'] if c['pos'] == 'list' else None)
    return c


def strategy(tier):
    return _case()


def run(c, ctx):
    it = c['it']
    p = ctx.path()
    u = ctx.pyuff.UFF(p)
    its = [it]
    if c['pos'] == 'list':
        its = [c['pre'], it]
        write(u, its)
    else:
        if 'pre' in c:
            write(u, [c['pre']])
            if c['pos'] == 'add':
                its = [c['pre'], it]
        write(u, [it], 'overwrite' if c['pos'] in ('overwrite', 'new-ow') else 'add')
    r = u if c['same'] else lib('UFF', ctx.pyuff.UFF, p)
    bi = [int(bool(i['d'].get('binary', 0))) if i['d']['type'] == 58 else 0 for i in its]
    require([int(v) for v in r.get_set_types()] == [i['d']['type'] for i in its], f'set types {list(r.get_set_types())}')
    require([int(v) for v in r.get_set_formats()] == bi, f'set formats {list(r.get_set_formats())}, expected {bi}')
    check_sets(read(r), its, 'read back')
    y = np.asarray(it['d']['data'])
    ctx.trivial = not np.any(y != y[0])
    d = it['d']
    ctx.label(f"{'complex' if np.iscomplexobj(y) else 'real'} {'even' if d.get('abscissa_spacing') else 'uneven'} "
              f"{'binary' if d.get('binary') else 'ascii'} {'double' if T[58].is_double(d, it['fd']) else 'single'}", c['pos'])
    if len(y) > 100:
        ctx.label('more than 100 points')

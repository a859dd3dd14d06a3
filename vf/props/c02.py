"""C02: ASCII, binary and header-only views of one signal agree."""
import numpy as np
from hypothesis import strategies as st
from ..sets import T, O, TYPES
from ..items import item, twins, write, read, aslist, put, get, enc_item, encode, nontriv
from ..common import Violation, check_fields, clone, lib, require, same, check_value

RULE = ('A dataset-58 record is written twice, as ASCII and as binary (same precision), and both are read; a file of 1..4 sets (mostly 58 in all '
        'forms, own or foreign rendering) is read by a sequence of full and header-only reads (all sets, one set, lists) through one object. '
        'Non-trivial: the signal is not constant and the sequence has both read modes.')
QUICK, THOROUGH = 9600, 90000
STORAGE = {'binary', 'byte_ordering', 'fp_format', 'n_ascii_lines', 'n_bytes', 'x', 'data'}


@st.composite
def _case(draw):
    uni = draw(st.sampled_from([False, False, True]))
    cx, ev, db = draw(st.integers(0, 1)), draw(st.integers(0, 1)), draw(st.integers(0, 1))
    # values in the range of both storages
    c = {'it': item(draw, O(uni=uni), [58], form=(cx, ev, 1, db))}
    n = draw(st.integers(1, 4))
    own = draw(st.booleans())
    o = O(uni=uni, nmax58=20, big=False, huge=1200)
    ty = [58, 58, 58, 58, 15, 151, 2411, 55]
    c['file'] = [item(draw, o, ty) if own else enc_item(draw, o, ty) for _ in range(n)]
    twins(draw, c['file'])
    ix = st.integers(0, n - 1)
    for i in [c['it']] + c['file']:                       # every text as wide as its column
        if i['d']['type'] == 58 and draw(st.integers(0, 7)) == 0:
            ch = draw(st.sampled_from(['W', 'é', '中', '😀', 'a b'] if uni else ['W', '9', 'a b']))
            for k in T[58].textkeys:
                w = T[58].text_w.get(k, 20)
                i['d'][k] = (ch * w)[:w].strip()
    c['reads'] = draw(st.lists(st.tuples(st.one_of(st.none(), ix, st.lists(ix, min_size=1, max_size=4)), st.booleans()), min_size=2, max_size=5))
    k = draw(st.integers(0, 7))
    if k and len({h for _, h in c['reads']}) < 2:         # both read modes
        k %= len(c['reads'])
        c['reads'][k] = (c['reads'][k][0], not c['reads'][k][1])
    c['use_header_first'] = draw(st.booleans())
    return c


def strategy(tier):
    return _case()


def run(c, ctx):
    UFF = ctx.pyuff.UFF
    it = c['it']
    got = {}
    for bi in (0, 1):
        d = clone(it['d'])
        d['binary'] = bi
        u = UFF(ctx.path(f'b{bi}.uff'))
        write(u, [{'d': d, 'fd': it['fd']}])
        if c['use_header_first']:
            h = read(u, header_only=True)
        got[bi] = read(u)
        require(int(got[bi]['binary']) == bi, f'binary flag {got[bi]["binary"]}, expected {bi}')
        if not c['use_header_first']:
            h = read(u, header_only=True)
        header_of(got[bi], h, f'{"binary" if bi else "ASCII"} header-only')
    a, b = got[0], got[1]
    ka, kb = set(a) - STORAGE, set(b) - STORAGE
    require(ka == kb, f'header fields differ between ASCII and binary: {sorted(ka ^ kb)}')
    for k in sorted(ka):
        same(a[k], b[k], f'ASCII/binary: {k}')
    y, x = np.asarray(b['data']), np.asarray(b['x'])
    db = T[58].is_double(it['d'], it['fd'])
    require(np.iscomplexobj(a['data']) == np.iscomplexobj(b['data']), 'ASCII/binary: kind of data differs')
    check_value('ASCII vs binary data', a['data'], y, ('e', 11) if db else ('e', 5, 1.25))
    check_value('ASCII vs binary x', a['x'], x, 'x' if it['d'].get('abscissa_spacing') else ('e', 5, 1.25))

    p = ctx.path('seq.uff')
    fl = c['file']
    if 's' in fl[0]:
        put(p, b''.join(encode(i) for i in fl))
    else:
        u = UFF(p)
        for i in fl:
            write(u, [i])
    full = aslist(read(UFF(p)), 'full read', len(fl))
    u = UFF(p)
    raw = get(p)
    for k, (sel, ho) in enumerate(c['reads']):
        w = f'read {k} ({"header only" if ho else "full"}, {sel})'
        r = read(u, sel, header_only=ho)
        idx = list(range(len(fl))) if sel is None else [sel] if isinstance(sel, int) else sel
        r = aslist(r, w, len(idx))
        require(len(r) == len(idx), f'{w}: {len(r)} sets')
        for g, i in zip(r, idx):
            if ho and fl[i]['d']['type'] == 58:
                header_of(full[i], g, f'{w} set {i}')
            else:
                same(full[i], g, f'{w} set {i}')
    require(get(p) == raw, 'reading changed the file')
    y = np.asarray(it['d']['data'])
    ctx.trivial = not np.any(y != y[0]) or len({h for _, h in c['reads']}) < 2
    nontriv(ctx, fl)


def header_of(full, h, w):
    require(isinstance(h, dict), f'{w}: {type(h).__name__}')
    require(set(full) == set(h), f'{w}: fields differ: {sorted(set(full) ^ set(h))}')
    for k in full:
        if k in ('x', 'data'):
            require(h[k] is None, f'{w}: {k} is not None')
        else:
            same(full[k], h[k], f'{w}: {k}')

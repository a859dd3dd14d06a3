"""C15: NaN and infinite samples of a 58 signal are stored as finite numbers."""
import numpy as np
from hypothesis import strategies as st
from ..gens import flavour
from ..sets import T, O
from ..items import item, write, read, aslist, check_sets, nontriv
from ..common import check_fields, clone, close, lib, require, show

RULE = ('58 signals in all 16 storage forms (float32 sources included) with NaN, +inf and -inf at drawn places: single ones, ends, runs, everything, real '
        'part, imaginary part or both; the finite samples, x, length and header must be unaffected, and further sets of the call too. '
        'Non-trivial: at least one non-finite and one finite part.')
QUICK, THOROUGH = 16000, 200000
BATCH = 300
V = {'n': np.nan, 'p': np.inf, 'm': -np.inf}


@st.composite
def _case(draw):
    o = O(big=draw(st.integers(0, 5)) == 0, huge=400)
    form = draw(st.sampled_from(T[58].ALL_FORMS))
    d, form = T[58].gen(draw, o, form)
    fd = T[58].wargs(draw, d, form)
    y = np.array(d['data'])
    if y.dtype.kind in 'iu':
        y = y.astype(float)
    n = len(y)
    where = draw(st.sampled_from(['single', 'single', 'ends', 'run', 'all', 'some', 'some', 'mixed']))
    if where == 'single':
        idx = [draw(st.integers(0, n - 1))]
    elif where == 'ends':
        idx = [0, n - 1]
    elif where == 'run':
        a = draw(st.integers(0, n - 1))
        idx = list(range(a, min(n, a + draw(st.integers(1, n)))))
    elif where == 'all':
        idx = list(range(n))
    else:
        r = np.random.default_rng(draw(st.integers(0, 2 ** 32 - 1)))
        idx = [int(i) for i in np.nonzero(r.random(n) < draw(st.sampled_from([0.1, 0.5, 0.9])))[0]] or [0]
    same = draw(st.sampled_from([None, 'n', 'p', 'm']))
    r = np.random.default_rng(draw(st.integers(0, 2 ** 32 - 1)))
    part = draw(st.sampled_from(['re', 'im', 'both', 'any']))
    for i in idx:
        a, b = same or 'npm'[r.integers(3)], same or 'npm'[r.integers(3)]
        if y.dtype.kind == 'f':
            y[i] = V[a]
        else:
            w = part if part != 'any' else ['re', 'im', 'both'][r.integers(3)]
            if w in ('re', 'both'):
                y.real[i] = V[a]
            if w in ('im', 'both'):
                y.imag[i] = V[b]
    k = draw(st.sampled_from(['nd', 'nd', 'strided', 'ro', 'list', 'rev', 'swapped', 'scalars']))
    d['data'] = flavour(y, k) if not (k in ('list', 'scalars') and y.dtype.itemsize in (4,)) else y
    more = [item(draw, O(big=False, nmax58=9), [58, 15, 151], fd) for _ in range(draw(st.integers(0, 1)))]
    if not fd:
        more = [m for m in more if m['d']['type'] != 58 or 'ord_data_type' in m['d']]
    return {'d': d, 'fd': fd, 'form': list(form), 'more': more}


def strategy(tier):
    return _case()


def part(got, src, kind, lo, where):
    """One real array: got as read, src as given."""
    got, src = np.asarray(got, float), np.asarray(src, float)
    require(got.shape == src.shape, f'{where}: {got.shape} values, {src.shape} written')
    require(bool(np.all(np.isfinite(got))), f'{where}: {show(got)} is not finite')
    fin = np.isfinite(src)
    ok = np.where(fin, close(got, np.where(fin, src, 0.0), kind), True)
    require(bool(np.all(ok)), f'{where}: finite sample {show(src[~ok][:1])} became {show(got[~ok][:1])}')
    z = np.isnan(src)
    require(bool(np.all(got[z] == 0)), f'{where}: NaN became {show(got[z])}')
    for s in (1, -1):
        q = got[np.isinf(src) & (np.sign(np.where(z, 0, src)) == s)] * s
        require(bool(np.all(q >= lo)), f'{where}: {"-" if s < 0 else ""}inf became {show(q * s)}')


def run(c, ctx):
    d = c['d']
    cx, ev, bi, db = c['form']
    src = np.array(d['data'])
    p = ctx.path()
    u = ctx.pyuff.UFF(p)
    its = [{'d': d, 'fd': c['fd']}] + c['more']
    lib('write_sets', u.write_sets, [clone(i['d']) for i in its], 'add', force_double=c['fd'])
    g = aslist(read(ctx.pyuff.UFF(p)), 'read back', len(its))
    require(len(g) == len(its), f'{len(g)} sets read, {len(its)} written')
    for k, i in enumerate(its[1:]):
        check_fields(g[k + 1], T[i['d']['type']].fields(i['d'], i['fd']), f'set {k + 1}')
    e = dict(d)
    e['data'] = np.where(np.isfinite(src.real) & np.isfinite(src.imag), src, 0)
    f = T[58].fields(e, c['fd'])
    check_fields(g[0], [x for x in f if x[0] != ('data',) or x[1] in ('cx', 'real')], 'read back')
    kind = f[-1][1]
    f32 = src.dtype.newbyteorder('=') in (np.float32, np.complex64)
    lo = float(np.finfo('f4').max) * 0.999 if f32 or (bi and not db) else 1.7976e308
    y = np.asarray(g[0]['data'])
    part(y.real, src.real, kind, lo, 'data' + (' (real)' if cx else ''))
    if cx:
        part(y.imag, src.imag, kind, lo, 'data (imaginary)')
    parts = np.concatenate([src.real, src.imag]) if cx else src
    ctx.trivial = bool(np.all(~np.isfinite(parts)))
    ctx.label(f'form {c["form"]}')

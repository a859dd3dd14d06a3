"""Items: one set to be written, {'d': dictionary, 'fd': force_double}."""
import os
import warnings
import numpy as np
from hypothesis import strategies as st
from .sets import T, TYPES, O, Style, decode_file
from .common import Violation, lib, check_fields, clone, require
from .grow import grow

DOUBLE = [f for f in T[58].ALL_FORMS if f[3]]


def item(draw, o=None, types=TYPES, fd=None, form=None):
    """fd None: any; True: every 58 set is one that force_double=True gives."""
    o = o or O()
    t = draw(st.sampled_from(types))
    if t != 58:
        return {'d': stale(draw, scalars(draw, longer(draw, o, T[t].gen(draw, o)))), 'fd': True if fd is None else fd}
    if form is None and fd:
        form = draw(st.sampled_from([f for f in (o.forms58 or T[58].ALL_FORMS) if f[3]]))
    d, form = T[58].gen(draw, o, form)
    f = T[58].wargs(draw, d, form, fd)
    return {'d': stale(draw, scalars(draw, longer(draw, o, d))), 'fd': f}


def longer(draw, o, d):
    """At times thousands of entries."""
    if o.huge and draw(st.integers(0, o.huge)) == o.huge:
        return grow(d, draw(st.integers(0, 59)), draw(st.integers(0, 2 ** 32 - 1)), o.mid)
    return d


def scalars(draw, d):
    """At times numpy numbers in place of Python ones."""
    k = draw(st.integers(0, 15))
    if k >= 3:
        return d
    i, f = [(np.int64, np.float64), (np.int64, float), (int, np.float64)][k]
    for key, v in d.items():
        if type(v) is int:
            d[key] = i(v)
        elif type(v) is float:
            d[key] = f(v)
    return d


def stale(draw, d):
    """At times fields that the library works out itself, with values left from another content (read, edited, written)."""
    if draw(st.integers(0, 7)):
        return d
    n = st.integers(0, 5000)
    t = d['type']
    if t == 58:
        for k, e in (('num_pts', n), ('abscissa_min', st.sampled_from([0., 1., -2.5])), ('abscissa_inc', st.sampled_from([0., 1., 1e-3])), ('n_bytes', n),
                     ('byte_ordering', st.sampled_from([1, 2])), ('fp_format', st.sampled_from([1, 2])), ('n_ascii_lines', st.integers(0, 12))):
            if draw(st.booleans()):
                d[k] = draw(e)
    elif t == 82:
        d['n_nodes'] = draw(n)
    elif t == 55:
        d['data_type'], d['n_data_per_node'] = draw(st.sampled_from([2, 5])), draw(st.sampled_from([3, 6]))
    elif t in (2429, 2467):
        for g in d.get('groups', []):
            if isinstance(g, dict):
                g['number_of_entities_in_group'] = draw(n)
    return d


def items(draw, lo, hi, o=None, types=TYPES):
    """Sets for one call: all with the same force_double."""
    n = draw(st.integers(lo, hi))
    fd = draw(st.sampled_from([True, True, False]))
    return twins(draw, [item(draw, o, types, fd) for _ in range(n)])


def twins(draw, its):
    """At times one of the sets is a copy of another, or a copy with other values under the same header."""
    if len(its) > 1 and draw(st.integers(0, 3)) == 0:
        i, j = draw(st.integers(0, len(its) - 1)), draw(st.integers(0, len(its) - 1))
        if i != j:
            its[j] = twin(draw, its[i])
    return its


def twin(draw, it):
    it = clone(it)
    d = it['d']
    k = draw(st.sampled_from(['same', 'values', 'values', 'values']))
    if k == 'values':
        keys = {58: ['data'], 15: ['x', 'y', 'z'], 2411: ['x', 'y', 'z'], 82: ['nodes'], 55: ['r1', 'r2', 'r3'], 2414: ['x', 'y', 'z'], 18: ['ref_o']}.get(d['type'], [])
        for key in keys:
            if key in d and len(d[key]) > 1:
                d[key] = d[key][::-1]
        if d['type'] == 58:
            y = np.array(d['data'])
            y[0] = y[0] // 2 + 1 if y.dtype.kind in 'iu' else y[0] * 0.5 + 1
            d['data'] = y
    return it


def fields(it, **k):
    d = it['d']
    return T[d['type']].fields(d, it['fd'], **k)


def check_sets(got, its, where, **k):
    """got: what read_sets() returned for the file; its: expected items."""
    gs = aslist(got, where, len(its))
    require(len(gs) == len(its), f'{where}: {len(gs)} sets, expected {len(its)}')
    for i, (g, it) in enumerate(zip(gs, its)):
        check_fields(g, fields(it, **k), f'{where}: set {i} (type {it["d"]["type"]})')


def aslist(got, where, n):
    """read_sets() returns one dictionary for one set, a list otherwise."""
    if n == 1:
        require(isinstance(got, dict), f'{where}: one set is to be returned as a dictionary, got {type(got).__name__}'
                + (f' of {len(got)}' if isinstance(got, list) else ''))
        return [got]
    require(isinstance(got, list), f'{where}: expected a list of {n} sets, got {type(got).__name__}')
    return got


def write(u, its, mode='add', fd=None, what='write_sets'):
    """One call for all items (all have the same fd)."""
    ds = [clone(it['d']) for it in its]
    fd = its[0]['fd'] if fd is None else fd
    lib(what, u.write_sets, ds if len(ds) != 1 else ds[0], mode, force_double=fd)


VIA = ['name', 'name', 'name', 'filename', 'fileName', 'relative']


class Named:
    """UFF(path) with the name handed over in one of the ways the constructor knows."""

    def __init__(self, ctx, via):
        self.UFF, self.via, self.root = ctx.pyuff.UFF, via, ctx.root

    def __call__(self, p):
        if self.via == 'filename':
            return self.UFF(filename=p)
        if self.via == 'fileName':
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                return self.UFF(fileName=p)
        return self.UFF(self.name(p))

    def name(self, p):
        return os.path.relpath(p, self.root) if self.via == 'relative' else p

    def __enter__(self):
        self.cwd = os.getcwd()
        if self.via == 'relative':
            os.chdir(self.root)
        return self

    def __exit__(self, *a):
        os.chdir(self.cwd)


def read(u, *a, what='read_sets', **k):
    return lib(what, u.read_sets, *a, **k)


def enc_item(draw, o=None, types=TYPES, style=None):
    """A set in a file of another program: {'d', 'fd', 's': style}."""
    o = o or O()
    t = draw(st.sampled_from(types))
    s = style or Style.draw(draw)
    if t == 58:
        d, form = T[58].gen(draw, o, draw(st.sampled_from(o.forms58 or T[58].ALL_FORMS)), foreign=True, nmin=1)
        d['ord_data_type'] = (6 if form[3] else 5) if form[0] else (4 if form[3] else 2)
        return {'d': longer(draw, o, d), 'fd': False, 's': s}
    d = longer(draw, o, T[t].gen(draw, o))
    if t == 151:
        for k in ('date_db_created', 'time_db_created', 'date_db_saved', 'time_db_saved', 'date_file_written', 'time_file_written'):
            a = k.replace('file_written', 'db_written')
            if k not in d and a not in d:
                d[k] = draw(o.text(10))
    return {'d': d, 'fd': True, 's': s}


def encode(it):
    d = it['d']
    s = Style(**it['s'])
    m = T[d['type']]
    return m.encode(d, s, it['fd']) if d['type'] == 58 else m.encode(d, s)


def enc_fields(it):
    d = it['d']
    m = T[d['type']]
    if d['type'] == 58:
        return m.fields(d, it['fd'], dig=it['s']['dig58'])
    return m.fields(d, it['fd'])


def types_of(its):
    return [it['d']['type'] for it in its]


def put(path, data):
    with open(path, 'wb') as fh:
        fh.write(data)


def get(path):
    if not os.path.exists(path):
        return None
    with open(path, 'rb') as fh:
        return fh.read()


def nontriv(ctx, its):
    for it in its:
        d = it['d']
        ctx.label(f'type {d["type"]}')

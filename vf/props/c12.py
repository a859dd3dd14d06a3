"""C12: the prepare_ functions return what they were given, or refuse it."""
import importlib
import numpy as np
from hypothesis import strategies as st
from ..gens import text, ints, floats
from ..sets import T, O, ACTIVE
from ..items import check_sets, write, read, DOUBLE
from ..common import Violation, clone, native, lib, must_raise, require, same, show

RULE = ('kind give: any prepare function with a drawn subset of its arguments (valid values of every accepted flavour, zero and empty ones included, by '
        'name or by position), full dictionary or not - the result must hold exactly these; kind refuse: one validated argument carries a value of a wrong '
        'kind or outside its documented range while the others are valid; kind write: a complete generated set goes through its prepare function, is '
        'written and read back. Non-trivial: at least two arguments supplied (give, refuse) or any written set.')
QUICK, THOROUGH = 32000, 320000
BATCH = 500

S, N, F, PF, PI = ('str',), ('int',), ('float',), ('pyfloat',), ('pyint',)
NA, FA, CA, XA = ('ints',), ('floats',), ('nums',), ('fc',)
NUM = ('num',)
FREE = ('free',)


def ch(*v):
    return ('choice', list(v))


def rg(lo, hi):
    return ('range', lo, hi)


IDS = [(f'id{i}', S) for i in range(1, 6)]
ax58 = []
for _a in ('abscissa', 'ordinate', 'orddenom', 'z_axis'):
    ax58 += [(f'{_a}_spec_data_type', rg(0, 20))] + [(f'{_a}_{q}_unit_exp', N) for q in ('len', 'force', 'temp')] + [(f'{_a}_axis_units_lab', S)]
_t = T[2414]
SPEC = {                              # the arguments in the documented order
    15: [(k, NA) for k in ('node_nums', 'def_cs', 'disp_cs', 'color')] + [(k, FA) for k in 'xyz'],
    18: [(k, FREE) for k in ('cs_num', 'cs_type', 'ref_cs_num', 'color', 'method', 'cs_name', 'ref_o', 'x_point', 'xz_point')],
    55: IDS + [('model_type', ch(0, 1, 2, 3)), ('analysis_type', ch(2, 3, 5, 7)), ('data_ch', ch(0, 1, 2, 3, 4, 5)), ('spec_data_type', rg(0, 18)),
               ('data_type', ch(2, 5)), ('n_data_per_node', N)] + [(f'r{i}', CA) for i in range(1, 7)]
        + [('load_case', PI), ('mode_n', PI), ('freq', F), ('modal_m', FREE), ('modal_damp_vis', PF), ('modal_damp_his', PF), ('eig', NUM), ('modal_a', NUM),
           ('modal_b', NUM), ('freq_step_n', PI), ('node_nums', NA)],
    58: [('binary', ch(0, 1))] + IDS + [('func_type', rg(0, 27)), ('ver_num', N), ('load_case_id', N), ('rsp_ent_name', S), ('rsp_node', N),
                                        ('rsp_dir', rg(-6, 6)), ('ref_ent_name', S), ('ref_node', N), ('ref_dir', rg(-6, 6)),
                                        ('ord_data_type', ch(2, 4, 5, 6)), ('num_pts', N), ('abscissa_spacing', ch(0, 1)), ('abscissa_min', F),
                                        ('abscissa_inc', F), ('z_axis_value', F)] + ax58
        + [('data', XA), ('x', FREE), ('spec_data_type', FREE), ('byte_ordering', FREE), ('fp_format', FREE), ('n_ascii_lines', FREE), ('n_bytes', FREE)],
    82: [('trace_num', N), ('n_nodes', N), ('color', N), ('id', S), ('nodes', NA)],
    151: [(k, S) for k in ('model_name', 'description', 'db_app', 'date_db_created', 'time_db_created')] + [('version_db1', N), ('version_db2', N),
          ('file_type', ch(0, 1, 2))] + [(k, S) for k in ('date_db_saved', 'time_db_saved', 'program', 'date_db_written', 'time_db_written')],
    164: [('units_code', rg(0, 9)), ('units_description', S), ('temp_mode', ch(1, 2))] + [(k, PF) for k in ('length', 'force', 'temp', 'temp_offset')],
    1858: [(k, N) for k in T[1858].r1 + T[1858].r2] + [(k, F) for k in T[1858].r3 + T[1858].r4] + [(k, S) for k in T[1858].r6],
    2400: [(k, N) for k in ('model_uid', 'entity_type', 'entity_subtype', 'version_number')] + [('entity_name', S), ('part_number', S), ('status_mask', ('mask',)),
          ('date', S), ('time', S)] + [(k, N) for k in ('idm_version_id', 'idm_item_id', 'primary_parent_uid', 'optimization_switches')],
    2411: [(k, NA) for k in ('node_nums', 'def_cs', 'disp_cs', 'color')] + [(k, FA) for k in 'xyz'],
    2412: [(k, NA) for k in ('element_nums', 'fe_descriptor', 'phys_table', 'mat_table', 'color', 'num_nodes')] + [('nodes_nums', ('ints2',))]
        + [(k, NA) for k in ('beam_orientation', 'beam_foreend_cross', 'beam_aftend_cross')],
    2414: [('analysis_dataset_label', N), ('analysis_dataset_name', S), ('dataset_location', ch(1, 2, 3, 5))] + IDS
        + [('model_type', ch(0, 1, 2, 3)), ('analysis_type', ch(0, 1, 2, 3, 4, 5, 6, 7, 9)), ('data_characteristic', ch(0, 1, 2, 3, 4, 6)), ('result_type', PI),
           ('data_type', ch(1, 2, 4, 5, 6)), ('number_of_data_values_for_the_data_component', N)] + [(k, N) for k in _t.i5 + _t.i5b]
        + [(k, F) for k in _t.f5 + _t.f5b] + [('d', FA), ('node_nums', NA), ('x', XA), ('y', XA), ('z', XA)],
    2420: [('Part_UID', N), ('Part_Name', S), ('CS_sys_labels', NA), ('CS_types', ('cst',)), ('CS_colors', NA), ('CS_names', ('names',)),
           ('CS_matrices', ('mats',))],
    '2429g': [('group_number', ('nat',)), ('group_name', ('nestr',)), ('entity_type_code', NA), ('entity_tag', NA)] + [(k, ('nat',)) for k in ACTIVE],
    '2467g': [('group_number', ('nat',)), ('group_name', ('nestr',))] + [(k, NA) for k in T[2467].ent] + [(k, ('nat',)) for k in ACTIVE],
}
NEED = {'2429g': 4, '2467g': 6}                      # arguments without a default; the others default to 0

_big = ints(-9999999999, 9999999999)


def seq(draw, v, dtype):
    k = draw(st.sampled_from(['nd', 'nd', 'list', 'tuple']))
    if k == 'nd' or not v:
        return np.array(v, dtype)
    return list(v) if k == 'list' else tuple(v)


def good(draw, kind):
    k = kind[0]
    if k == 'str':
        return draw(text(30, draw(st.booleans())))
    if k == 'nestr':
        return draw(text(30)) or 'g'
    if k in ('int', 'pyint'):
        v = draw(st.one_of(st.just(0), _big))
        return np.int64(v) if k == 'int' and draw(st.integers(0, 4)) == 0 else v
    if k == 'nat':
        return draw(st.one_of(st.just(0), ints(0, 999999999)))
    if k in ('float', 'pyfloat'):
        v = draw(st.one_of(st.just(0.0), floats('full')))
        return np.float64(v) if k == 'float' and draw(st.integers(0, 4)) == 0 else v
    if k == 'num':
        return draw(st.one_of(floats('full'), st.integers(-99, 99), st.tuples(floats(), floats()).map(lambda t: complex(*t))))
    if k == 'choice':
        return draw(st.sampled_from(kind[1]))
    if k == 'range':
        v = draw(st.one_of(st.sampled_from(kind[1:]), st.integers(*kind[1:])))
        return np.int64(v) if draw(st.integers(0, 5)) == 0 else v
    n = draw(st.integers(0, 5))
    if k == 'ints':
        return seq(draw, [draw(_big) for _ in range(n)], int)
    if k == 'ints2':
        m = draw(st.integers(1, 4))
        return seq(draw, [[draw(_big) for _ in range(m)] for _ in range(n)], int)
    if k == 'floats':
        return seq(draw, [draw(floats('full')) for _ in range(n)], float)
    if k in ('fc', 'nums'):
        c = draw(st.integers(0, 2 if k == 'nums' else 1))
        v = [draw(floats('full')) for _ in range(n)]
        if c == 1:
            v = [complex(x, draw(floats())) for x in v]
        if c == 2:
            return seq(draw, [draw(_big) for _ in range(n)], int)
        return seq(draw, v, complex if c else float)
    if k == 'mask':
        v = draw(st.lists(st.integers(-1, 99), min_size=32, max_size=32))
        return tuple(v) if draw(st.booleans()) else v
    if k == 'cst':
        return seq(draw, [draw(st.integers(0, 2)) for _ in range(n)], int)
    if k == 'names':
        v = [draw(text(20)) or 'n' for _ in range(n)]
        return np.array(v) if v and draw(st.booleans()) else v
    if k == 'mats':
        v = np.array([draw(floats()) for _ in range(12 * n)], float).reshape(n, 4, 3)
        return v if draw(st.booleans()) else [v[i] for i in range(n)]
    if k == 'free':
        return draw(st.one_of(st.integers(-5, 5), st.floats(-5, 5), st.text(max_size=4), st.lists(st.integers(0, 9), max_size=4)))
    raise AssertionError(kind)


_WORD = ['abc', '', '1', '1.0', 'None']


def bad(draw, kind):
    """A value of a wrong kind, or outside the range, for a validated argument."""
    k = kind[0]
    if k in ('str', 'nestr'):
        v = [5, 0, 1.5, b'bytes', ['a'], {'a': 1}] + ([''] if k == 'nestr' else [])
    elif k in ('int', 'pyint', 'nat'):
        v = [1.5, 0.5, -3.0, 0.0, 'abc', '1', '', 1 + 2j, 1j] + ([[1, 2], (3,), -1, -5, -999999999] if k == 'nat' else [])
    elif k in ('float', 'pyfloat'):
        v = [1, 0, -7, 'abc', '1.0', '', 1j] + ([[1.0], (2.0, 3.0)] if k == 'pyfloat' else [])
    elif k == 'num':
        v = _WORD
    elif k == 'choice':
        out = [x for x in range(min(kind[1]) - 3, max(kind[1]) + 4) if x not in kind[1]]
        v = out * 2 + [-100, 1000, 0.5, 'abc', str(kind[1][0])]
    elif k == 'range':
        lo, hi = kind[1:]
        v = [lo - 1, hi + 1, lo - 2, hi + 2, lo - 100, hi + 100] * 2 + [lo + 0.5, hi - 0.5, hi + 0.5, 'abc', '']
    else:
        n = draw(st.integers(1, 4))
        p = draw(st.integers(0, n - 1))
        b = [3] * n
        if k in ('ints', 'cst', 'ints2'):
            el = draw(st.sampled_from([1.5, 0.25, 'abc', 2.0, 1j] + ([3, -1, 7] if k == 'cst' else [])))
            b = [1] * n
        elif k == 'floats':
            el = draw(st.sampled_from(['abc', 1j, 'x']))
            b = [1.5] * n
            if draw(st.integers(0, 2)) == 0:
                b, el = [2] * n, 2                     # whole numbers where real ones are asked for
        elif k in ('nums', 'fc'):
            el = draw(st.sampled_from(['abc', '']))
            b = [1.5] * n
        elif k == 'mask':
            m = draw(st.sampled_from([0, 1, 31, 33, 64]))
            return draw(st.sampled_from([[0] * m, (1,) * m, 5, 1.5]))
        elif k == 'names':
            b, el = ['a'] * n, draw(st.sampled_from([5, 1.5, None, b'x']))
            b[p] = el
            return draw(st.sampled_from([b, b, 5, 1.5, np.arange(n), np.ones(n)]))
        elif k == 'mats':
            return draw(st.sampled_from(['abc', [['a', 'b']], [[1, 2, 3]], np.ones((1, 4, 3), int), [[1j]]]))
        else:
            raise AssertionError(kind)
        b[p] = el
        if k == 'ints2':
            b = [b, b]
        k2 = draw(st.sampled_from(['list', 'tuple', 'nd']))
        return b if k2 == 'list' else tuple(b) if k2 == 'tuple' else np.array(b)
    return draw(st.sampled_from(v))


def fn(pyuff, key):
    if key == '2429g':
        return pyuff.prepare_group
    if key == '2467g':
        return importlib.import_module('pyuff.datasets.dataset_2467').prepare_group
    return getattr(pyuff, f'prepare_{key}')


KEYS = list(SPEC)


@st.composite
def _case(draw):
    kind = draw(st.sampled_from(['give', 'give', 'refuse', 'refuse', 'refuse', 'write', 'groups']))
    if kind == 'groups':
        t = draw(st.sampled_from([2429, 2467]))
        sp = SPEC[f'{t}g']
        gs = [{k: good(draw, q) for k, q in sp} for _ in range(draw(st.integers(1, 4)))]
        c = {'kind': kind, 't': t, 'gs': gs, 'full': draw(st.booleans()), 'bad': None}
        if draw(st.integers(0, 2)):
            if draw(st.integers(0, 4)) == 0:
                c['bad'] = 'notlist'
            else:
                i = draw(st.integers(0, len(gs) - 1))
                k, q = draw(st.sampled_from(sp))
                c['bad'] = [i, k]
                gs[i][k] = bad(draw, q)
        return c
    if kind == 'write':
        return {'kind': kind, **written(draw)}
    key = draw(st.sampled_from(KEYS))
    sp = SPEC[key]
    c = {'kind': kind, 'key': str(key), 'full': draw(st.booleans()), 'pos': 0}
    m = draw(st.sampled_from([0, 1, 2, 3, 3]))
    need = NEED.get(key, 0)
    args = {}
    one = draw(st.integers(0, len(sp) - 1))
    for i, (k, q) in enumerate(sp):
        if i < need or m == 3 or (m == 2 and draw(st.booleans())) or (m == 1 and i == one):
            args[k] = good(draw, q)
    if kind == 'refuse':
        val = [(k, q) for k, q in sp if q != FREE]
        if not val:
            kind = c['kind'] = 'give'
        else:
            k, q = draw(st.sampled_from(val))
            args[k] = bad(draw, q)
            c['bad'] = k
    elif draw(st.integers(0, 3)) == 0:
        c['pos'] = draw(st.integers(1, len(sp)))
    c['args'] = args
    return c


def written(draw):
    """A generated set with the arguments its prepare function takes."""
    t = draw(st.sampled_from([15, 18, 55, 58, 58, 82, 151, 164, 1858, 2400, 2411, 2412, 2414, 2420, 2429, 2467]))
    o = O(big=False)
    fd = True
    if t == 58:
        form = draw(st.sampled_from(DOUBLE))
        d, form = T[58].gen(draw, o, form)
        fd = T[58].wargs(draw, d, form, True)
        d = {k: v for k, v in d.items() if k != 'func_id' and not k.endswith('_axis_lab')}
        d['data'] = np.asarray(d['data']).astype(complex if form[0] else float)
        for k in ('rsp_dir', 'ref_dir'):
            d[k] = max(-6, min(6, d[k]))
        for k in d:
            if k.endswith('spec_data_type'):
                d[k] = d[k] % 21
        if draw(st.booleans()):
            d['num_pts'] = len(d['data'])
    elif t == 2414:
        d = T[t].gen(draw, o, 'fr')
        if draw(st.booleans()):                     # all three parts by name
            d['number_of_data_values_for_the_data_component'] = 3
            for k in 'xyz':
                d.setdefault(k, np.array(d['x']))
    elif t == 2412:
        d = T[t].gen(draw, o, 'flat')
        m = min(len(v) for v in d['nodes_nums'])
        d['nodes_nums'] = [list(v)[:m] for v in d['nodes_nums']]
        if 'num_nodes' in d:
            d['num_nodes'] = [m] * len(d['nodes_nums'])
        d = {k: np.array(v) if isinstance(v, list) and draw(st.booleans()) else v for k, v in d.items()}
    else:
        d = T[t].gen(draw, o)
    if t == 151:
        for k in ('version_db1', 'version_db2', 'file_type'):
            if k in d:
                d[k] = int(d[k]) % 3 if k == 'file_type' else int(d[k])
        for k in ('date', 'time'):
            if f'{k}_file_written' in d:
                d[f'{k}_db_written'] = d.pop(f'{k}_file_written')
    if t in (2429, 2467):
        for g in d['groups']:
            g['group_name'] = g['group_name'] or 'g'
            for e in T[t].ent:
                if not len(g[e]):
                    g[e] = np.array([], int)
    for k, v in d.items():                           # an empty list has no kind
        if t not in (2429, 2467) and dict(SPEC[t]).get(k) in (NA, ('cst',)) and not len(v):
            d[k] = np.array([], int)
    return {'t': t, 'd': native(d), 'fd': fd, 'full': False}


def strategy(tier):
    return _case()


def equal(a, b, where):
    """The supplied value a appears as b."""
    if isinstance(a, str) or a is None:
        require(type(b) is type(a) and a == b, f'{where}: {show(a)} became {show(b)}')
    elif isinstance(a, dict):
        require(isinstance(b, dict) and set(a) == set(b), f'{where}: {show(a)} became {show(b)}')
        for k in a:
            equal(a[k], b[k], f'{where}/{k}')
    elif isinstance(a, list) and any(isinstance(v, (dict, str)) for v in a):
        require(len(a) == len(b), f'{where}: {show(a)} became {show(b)}')
        for i, v in enumerate(a):
            equal(v, b[i], f'{where}[{i}]')
    else:
        require(b is not None, f'{where}: {show(a)} is missing')
        x, y = np.asarray(a), np.asarray(b)
        require(x.shape == y.shape and x.dtype.kind == y.dtype.kind and bool(np.all(x == y)), f'{where}: {show(a)} became {show(b)}')


def exact(got, t, args, sp, full, where, defaults=None):
    require(isinstance(got, dict), f'{where}: {type(got).__name__}')
    exp = dict(args)
    if t is not None:
        exp['type'] = t
    exp.update(defaults or {})
    if full:
        for k, _ in sp:
            exp.setdefault(k, None)
    require(set(got) == set(exp), f'{where}: entries {sorted(set(got) ^ set(exp))} missing or not asked for')
    for k in exp:
        equal(exp[k], got[k], f'{where}: {k}')


def run(c, ctx):
    P = ctx.pyuff
    ctx.label(c['kind'])
    if c['kind'] == 'write':
        t = c['t']
        d = clone(c['d'])
        if t in (2429, 2467):
            f = fn(P, f'{t}g')
            d = {'groups': [lib(f'prepare_group ({t})', f, **g) for g in d['groups']]}
        else:
            del d['type']
        s = lib(f'prepare_{t}', fn(P, t), **d)
        p = ctx.path()
        u = P.UFF(p)
        it = {'d': c['d'], 'fd': c['fd']}
        lib(f'writing a prepared {t}', u.write_sets, s, 'add', force_double=c['fd'])
        check_sets(read(P.UFF(p)), [it], f'prepared {t}')
        ctx.label(f'write {t}')
        return
    if c['kind'] == 'groups':
        t, gs = c['t'], c['gs']
        w = f'prepare_{t}'
        if c['bad'] == 'notlist':
            must_raise(w + ' of something else than a list', fn(P, t), gs[0], return_full_dict=c['full'])
        elif c['bad']:
            must_raise(f'{w} with {c["bad"][1]}={show(gs[c["bad"][0]][c["bad"][1]])} in group {c["bad"][0]}', fn(P, t), gs, return_full_dict=c['full'])
        else:
            exact(lib(w, fn(P, t), clone(gs), return_full_dict=c['full']), t, {'groups': gs}, [], False, w)
        ctx.label(w + (' refused' if c['bad'] else ''))
        return
    key = int(c['key']) if c['key'].isdigit() else c['key']
    sp, a = SPEC[key], c['args']
    f = fn(P, key)
    w = f.__name__ + f' ({key})'
    ctx.trivial = len(a) < 2
    ctx.label(w + (' refused' if c['kind'] == 'refuse' else ''))
    if c['kind'] == 'refuse':
        must_raise(f'{w} with {c["bad"]}={show(a[c["bad"]])}', f, **clone(a), return_full_dict=c['full'])
        return
    v = clone(a)
    pos = []
    for k, _ in sp[:c['pos']]:
        if k not in v and key in NEED:
            break
        pos.append(v.pop(k, None))
    got = lib(w, f, *pos, **v, return_full_dict=c['full'])
    dflt = {k: 0 for k, _ in sp[NEED[key]:] if k not in a} if key in NEED else None
    exact(got, None if key in NEED else key, a, sp, c['full'], w, dflt)

"""C13: defaults are fixed, supplied values are kept, rewriting is deterministic."""
import numpy as np
from hypothesis import strategies as st
from ..sets import T, O, TYPES, ACTIVE
from ..items import item, fields, write, read, check_sets, aslist, put, get, nontriv
from ..common import check_fields, clone, lib, require, unchanged, show

RULE = ('1..4 sets with every optional field first supplied, then reduced: one left out, one kept, a drawn subset left out, all left out, or scalar ones set to '
        'zero or the empty string. The file must hold the documented default for each absent and the supplied value for each present field, the '
        "caller's objects must still hold the same values, writing the same dictionaries again must give the same bytes, a dictionary that is changed after it was written (the binary switch, or all the fields of another set) must give what an equal new one gives, and neither changing the "
        'dictionaries after the write nor other sets may influence later defaults. Non-trivial: a type with optional fields of which one is absent.')
QUICK, THOROUGH = 16000, 160000
BATCH = 300


def optional(d):
    """[(container path, key)] of the optional fields that are present."""
    t = d['type']
    keys = list(T[t].optional)
    if t == 55:
        keys += ['modal_m', 'modal_damp_vis', 'modal_damp_his'] if d['analysis_type'] == 2 else ['modal_a', 'modal_b']
    if t == 2414 and d['analysis_type'] != 5:
        keys = [k for q in T[t].g.values() for k in q]
    if t == 2420:
        keys = [k for k in keys if k not in ('CS_types', 'CS_colors') or len(d['CS_sys_labels']) == 1]
    if t == 151:
        keys += ['date_db_written', 'time_db_written']
    r = [((), k) for k in keys if k in d]
    if t in (2429, 2467):
        r = [(('groups', i), k) for i, g in enumerate(d['groups']) for k in ACTIVE if k in g]
    return r


def at(d, path):
    for p in path:
        d = d[p]
    return d


@st.composite
def _one(draw, types):
    o = O(big=False, huge=300, mid=True, nmax58=12, opt=False, uni=draw(st.integers(0, 3)) == 0)
    it = item(draw, o, types)
    d = it['d']
    opts = optional(d)
    how = draw(st.sampled_from(['one', 'one', 'keep', 'subset', 'subset', 'all', 'falsy', 'none']))
    if opts:
        if how == 'one':
            gone = {draw(st.integers(0, len(opts) - 1))}
        elif how == 'keep':
            gone = set(range(len(opts))) - {draw(st.integers(0, len(opts) - 1))}
        elif how == 'subset':
            m = draw(st.integers(0, 2 ** len(opts) - 1))
            gone = {i for i in range(len(opts)) if m >> i & 1}
        else:
            gone = set(range(len(opts))) if how == 'all' else set()
        for i in gone:
            p, k = opts[i]
            del at(d, p)[k]
        if how == 'falsy':
            for p, k in opts:
                q = at(d, p)
                if k in ('binary', 'abscissa_spacing') or (d['type'] == 151 and ('version' in k or k == 'file_type')) or not isinstance(q[k], (int, float, str)):
                    continue
                if draw(st.integers(0, 2)):
                    q[k] = '' if isinstance(q[k], str) else 0
    if draw(st.integers(0, 5)) == 0:
        d['remark'] = draw(st.sampled_from(['kept', 5, None]))
    it['how'] = how if opts else 'no optional fields'
    return it


@st.composite
def _case(draw):
    types = draw(st.sampled_from([TYPES, TYPES, [draw(st.sampled_from(TYPES))]]))
    n = draw(st.sampled_from([1, 1, 2, 3, 4]))
    its = [draw(_one(types)) for _ in range(n)]
    k = draw(st.integers(0, n - 1))
    return {'its': its, 'k': k, 'changed': draw(st.sampled_from([None, 'flip', 'new'])) and (draw(_one([its[k]['d']['type']])) if draw(st.booleans()) else 'binary')}


def strategy(tier):
    return _case()


DERIVED = {58: ('abscissa_min', 'abscissa_inc', 'num_pts', 'n_bytes', 'ord_data_type', 'spec_data_type', 'byte_ordering', 'fp_format', 'n_ascii_lines'),
           55: ('data_type', 'n_data_per_node'), 82: ('n_nodes',), 2412: ('num_nodes',)}


def supplied(d):
    return {k: v for k, v in d.items() if k not in DERIVED.get(d['type'], ())}


def spoil(o):
    """Change everything mutable that the write may have put into the dictionary."""
    for k, v in list(o.items()):
        if isinstance(v, dict):
            spoil(v)
        elif isinstance(v, list):
            for i, x in enumerate(v):
                if isinstance(x, dict):
                    spoil(x)
                elif isinstance(x, (int, np.integer)):
                    v[i] = 7
                elif isinstance(x, str):
                    v[i] = 'spoilt'
        elif isinstance(v, np.ndarray) and v.flags.writeable and v.dtype.kind in 'iu':
            v[...] = 7
        elif isinstance(v, (int, np.integer)):
            o[k] = 7
        elif isinstance(v, str):
            o[k] = 'spoilt'


def run(c, ctx):
    UFF = ctx.pyuff.UFF
    its = c['its']
    dicts = [clone(i['d']) for i in its]

    def wr(p, ds):
        u = UFF(p)
        for it, d in zip(its, ds):
            lib(f'write_sets (type {d["type"]})', u.write_sets, d, 'add', force_double=it['fd'])
        return get(p)

    a = wr(ctx.path(), dicts)
    p = ctx.path()
    for k, it in enumerate(its):
        if it['d']['type'] == 58:                           # samples that are not finite: the caller's own array or list stays as it is
            d = clone(it['d'])
            y = d['data'] = np.array(d['data'])
            if y.dtype.kind in 'fc':
                y[len(y) // 2], y[-1] = np.nan, np.inf
                if k % 2:
                    y = d['data'] = list(y)
                before = clone(y)
                lib('write_sets of NaN', UFF(ctx.path()).write_sets, d, 'add', force_double=it['fd'])
                require(np.array(before).tobytes() == np.array(y).tobytes(), f'set {k}: the array given by the caller was changed by the write')
    put(p, a)
    check_sets(read(UFF(p)), its, 'read back')
    for k, (it, d) in enumerate(zip(its, dicts)):
        require(isinstance(d, dict), 'dictionary replaced')
        require(set(it['d']) <= set(d), f'set {k} (type {it["d"]["type"]}): {sorted(map(str, set(it["d"]) - set(d)))} removed by the write')
        unchanged(supplied(it['d']), {q: d[q] for q in supplied(it['d'])}, f'dictionary of set {k} (type {it["d"]["type"]}) after the write')
    b = wr(ctx.path(), dicts)
    require(a == b, f'writing the same dictionaries again gives other bytes {diff(a, b)}')
    now = any(i['d']['type'] == 151 and any(f[1] == 'now' for f in fields(i)) for i in its)
    if not now:
        x = wr(ctx.path(), [clone(i['d']) for i in its])
        require(a == x, f'writing equal dictionaries gives other bytes {diff(a, x)}')
    if c['changed'] is not None:                            # the written dictionary is changed and written again
        it, d = its[c['k']], dicts[c['k']]
        x = clone(it['d'])
        if c['changed'] == 'binary':
            n, fd = {'binary': 1 - int(bool(it['d'].get('binary', 0)))} if it['d']['type'] == 58 else {}, it['fd']
        else:
            n, fd = c['changed']['d'], c['changed']['fd']
            n = {q: v for q, v in n.items() if not (n['type'] == 151 and q in ('date_db_written', 'time_db_written'))}
            fd = fd or 'ord_data_type' not in n
        x.update(clone(n))
        d.update(clone(n))
        filled = any(hasattr(v, '__len__') and not isinstance(v, str) and q not in x for q, v in d.items())     # a default as long as the set was
        if not filled and not (x['type'] == 151 and any(f[1] == 'now' for i in its for f in fields(i))):
            r = [attempt(UFF, ctx.path(), q, fd) for q in (x, d)]
            require(r[0] == r[1], f'set {c["k"]} (type {x["type"]}), written, changed and written again, gives other bytes than it does at once {diff(r[0] or b"", r[1] or b"")}')
            ctx.label('changed and written again' if r[0] is not None else 'changed to what is refused')
    for d in dicts:
        t = d['type']
        spoil(d)
        d['type'] = t
    p = ctx.path()
    y = wr(p, [clone(i['d']) for i in its])
    check_sets(read(UFF(p)), its, 'read back after changing the written dictionaries')
    if not now:
        require(a == y, f'the default values changed {diff(a, y)}')
    ctx.trivial = all(i['how'] in ('no optional fields', 'none') for i in its)
    ctx.label(*(i['how'] for i in its))
    nontriv(ctx, its)


def attempt(UFF, p, d, fd):
    try:
        UFF(p).write_sets(d, 'add', force_double=fd)
    except Exception:                                       # noqa: BLE001
        return None
    return get(p)


def diff(a, b):
    i = next((i for i, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
    return f'(at byte {i}: {show(a[i:i + 30])} / {show(b[i:i + 30])})'

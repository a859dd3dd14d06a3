"""C20: sets can be read in any order and any combination without side effects."""
import os
import numpy as np
from hypothesis import strategies as st
from ..sets import O, TYPES
from ..items import read, aslist, put, get
from ..foreign import parts, render
from ..common import check_fields, lib, must_raise, require, same, clone

RULE = ('One or two files of 1..7 sets (all types, own and foreign rendering, unsupported sets, text between them, unfinished last set) and a sequence of '
        '2..10 reads through up to three objects: all, one number, lists with repeats in any order, Python and numpy integers, header only, numbers '
        'outside, results of earlier reads overwritten in place, the file deleted at the end. Every result is compared with the intended content and '
        'with a first reading of that set alone by a separate object. Non-trivial: at least two sets in a file.')
QUICK, THOROUGH = 9600, 100000
BATCH = 200


@st.composite
def _case(draw):
    o = O(big=False, huge=900, nmax58=12, uni=draw(st.booleans()))
    types = draw(st.sampled_from([TYPES, TYPES, [2414, 55, 2412, 82], [58], [2411, 2412, 58, 55, 2429, 2467]]))
    files = [draw(parts(1, 7, types, o)) for _ in range(draw(st.sampled_from([1, 1, 2])))]
    sel = st.one_of(st.none(), st.integers(0, 50), st.lists(st.integers(0, 50), max_size=5))
    ops = []
    for _ in range(draw(st.integers(2, 10))):
        k = draw(st.sampled_from(['read', 'read', 'read', 'read', 'header', 'bad', 'spoil', 'new']))
        i = draw(st.integers(0, 2))
        if k in ('read', 'header'):
            ops.append((k, i, draw(sel), draw(st.sampled_from(['int', 'int', 'int', 'int64', 'int32', 'uint8', 'uint64', 'int8']))))
        elif k == 'bad':
            ops.append((k, i, draw(st.sampled_from(['n', 'n+1', '-1', '-n', '-n-1', 'big'])), draw(st.sampled_from(['one', 'list', 'last']))))
        else:
            ops.append((k, i))
    return {'files': files, 'ops': ops}


def strategy(tier):
    return _case()


def run(c, ctx):
    UFF = ctx.pyuff.UFF
    names, datas, models, alone = [], [], [], []
    for k, q in enumerate(c['files']):
        data, m, _ = render(ctx, q)
        p = ctx.path(f'{k}.uff')
        put(p, data)
        names.append(p)
        datas.append(data)
        models.append(m)
        alone.append([lib(f'read of set {i}', UFF(p).read_sets, i) for i in range(len(m))])
        sup = [str(t) for t in UFF(p).get_supported_sets()]
        for i, (g, e) in enumerate(zip(alone[-1], m)):
            require((str(e[1]) in sup) == (e[0] is not None), f'type {e[1]} is {"not " * (e[0] is not None)}among the supported sets {sup}')
            require(not e[2] or '58b' in sup, f'58b is not among the supported sets {sup}')
            content(g, e, f'file {k} set {i} alone')
    objs = {}
    kept = []                                           # results handed out, with a copy each

    def obj(i):
        if i not in objs:
            objs[i] = lib('UFF', UFF, names[i % len(names)])
        return objs[i]

    for step, op in enumerate(c['ops']):
        i = op[1]
        f = i % len(names)
        m, n = models[f], len(models[f])
        w = f'step {step} ({op[0]})'
        ctx.label(op[0])
        if op[0] == 'new':
            objs.pop(i, None)
        elif op[0] == 'bad':
            u = obj(i)
            v = {'n': n, 'n+1': n + 1, '-1': -1, '-n': -n if n else -1, '-n-1': -n - 1, 'big': 10 ** 6}[op[2]]
            sel = v if op[3] == 'one' or not n else [v] if op[3] == 'list' else [0, v]
            must_raise(f'{w}: read_sets({sel}) of {n} sets', u.read_sets, sel)
        elif op[0] == 'spoil':
            for g, _ in kept:
                spoil(g)
            kept = []
        else:
            u = obj(i)
            sel, ho = op[2], op[0] == 'header'
            if sel is None:
                idx = list(range(n))
            elif not n:
                continue
            else:
                idx = [s % n for s in (sel if isinstance(sel, list) else [sel])]
            arg = None if sel is None else idx if isinstance(sel, list) else idx[0]
            if op[3] != 'int' and arg is not None and max(idx, default=0) < 128:
                np_int = getattr(np, op[3].replace('np', 'int64'))
                arg = [np_int(a) for a in arg] if isinstance(arg, list) else np_int(arg)
            keep = list(arg) if isinstance(arg, list) else arg
            g = read(u, arg, header_only=ho, what=w)
            require(arg == keep, f'{w}: the list given was changed')
            g = aslist(g, w, len(idx))
            require(len(g) == len(idx), f'{w}: {len(g)} sets, expected {len(idx)}')
            for a, k in zip(g, idx):
                ww = f'{w}: set {k} (type {m[k][1]})'
                ref = alone[f][k]
                if ho and m[k][1] == 58:
                    require(set(a) == set(ref), f'{ww}: other fields in the header')
                    for key in ref:
                        if key in ('x', 'data'):
                            require(a[key] is None, f'{ww}: {key} read with header_only')
                        else:
                            same(ref[key], a[key], f'{ww}: {key}')
                else:
                    same(ref, a, ww)
                kept.append((a, clone(a)))
            for x in range(len(g)):
                for y in range(x):
                    require(g[x] is not g[y], f'{w}: one dictionary handed out twice')
        for k in range(len(names)):
            require(get(names[k]) == datas[k], f'{w}: the file was changed')
    for g, copy in kept:
        same(copy, g, 'a result handed out earlier')
    for k in range(len(names)):
        u = obj(k)
        os.unlink(names[k])
        for v, t in ((u, 'old object'), (UFF(names[k]), 'new object')):
            must_raise(f'read_sets() of a missing file ({t})', v.read_sets)
            must_raise(f'read_sets(0) of a missing file ({t})', v.read_sets, 0)
            require(not os.path.exists(names[k]), 'reading created the file')
        objs.clear()
    ctx.trivial = max(len(m) for m in models) < 2


def content(g, e, w):
    f, t, _ = e
    require(isinstance(g, dict), f'{w}: {type(g).__name__}')
    if f is None:
        require(set(g) == {'type'} and int(g['type']) == t, f'{w}: unsupported set of type {t} came back as {str(g)[:80]}')
    else:
        check_fields(g, f, f'{w} (type {t})')


def spoil(g):
    """Overwrite a result in place."""
    if isinstance(g, dict):
        for k in list(g):
            v = g[k]
            if isinstance(v, (dict, list, np.ndarray)):
                spoil(v)
            g[k] = 'spoilt'
    elif isinstance(g, list):
        for v in g:
            if isinstance(v, (dict, list, np.ndarray)):
                spoil(v)
        g.clear()
    elif isinstance(g, np.ndarray) and g.flags.writeable and g.dtype.kind in 'fciu':
        g[...] = 77

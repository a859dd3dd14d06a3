"""C17: convert_dataset_2412_to_82 draws every quad once."""
import numpy as np
from hypothesis import strategies as st
from ..sets import T, O, TYPES
from ..items import item, fields, write, read, aslist, nontriv
from ..common import check_fields, clone, lib, require, same

RULE = ('Lists of 0..6 sets of all types with element sets (quads only, mixed kinds, none, in the by-kind, the named and the read-back form) at any position; '
        'the trace lines are compared with a separate construction, the input with a copy of it, and the result is written and read back. '
        'Non-trivial: at least one quad.')
QUICK, THOROUGH = 11200, 100000
BATCH = 250


@st.composite
def quads(draw):
    n = draw(st.one_of(st.integers(0, 6), st.integers(0, 40)))
    els = []
    for _ in range(n):
        e = T[2412].elem(draw, 44, False)
        if len(e['nodes_nums']) < 4:
            e['nodes_nums'] = (e['nodes_nums'] * 4)[:4]
        e['num_nodes'] = len(e['nodes_nums'])
        els.append(e)
    return els


@st.composite
def _case(draw):
    n = draw(st.integers(0, 6))
    sets = []
    o = O(big=False, nmax58=9)
    for _ in range(n):
        k = draw(st.sampled_from(['other', 'named', 'desc', 'desc', 'named', 'none', 'unsupported']))
        if k == 'other':
            d = item(draw, o, [t for t in TYPES if t != 2412])['d']
            if draw(st.integers(0, 3)) == 0 and d['type'] in (15, 82, 151):
                d['quad'] = {'nodes_nums': [[1, 2, 3, 4]]}       # not an element set
        elif k == 'none':
            d = {'type': 2412}
            for q in draw(st.lists(st.sampled_from([11, 21, 41, 95, 111]), unique=True, max_size=3)):
                d[q] = [T[2412].elem(draw, q, False) for _ in range(draw(st.integers(1, 3)))]
        elif k == 'unsupported':
            d = {'type': draw(st.sampled_from([0, 780, 2435, 9999]))}
        else:
            els = draw(quads())
            d = {'type': 2412}
            more = draw(st.lists(st.sampled_from([11, 41, 95]), unique=True, max_size=2))
            for q in more[:1]:
                d[q] = [T[2412].elem(draw, q, False) for _ in range(draw(st.integers(1, 3)))]
            if k == 'desc' and els:
                d[44] = els
            for q in more[1:]:
                d[q] = [T[2412].elem(draw, q, False) for _ in range(draw(st.integers(1, 3)))]
            if els or k == 'named':
                m = T[2412].named_of(els)
                if draw(st.booleans()):
                    m['nodes_nums'] = [np.array(v) for v in m['nodes_nums']]
                elif draw(st.booleans()) and els and len({len(v) for v in m['nodes_nums']}) == 1:
                    m['nodes_nums'] = np.array(m['nodes_nums'])
                d['quad'] = m
        sets.append(d)
    return {'sets': sets, 'via': draw(st.sampled_from(['direct', 'direct', 'file'])), 'tuple': draw(st.booleans())}


def strategy(tier):
    return _case()


def run(c, ctx):
    P = ctx.pyuff
    f = P.pyuff.convert_dataset_2412_to_82 if hasattr(P.pyuff, 'convert_dataset_2412_to_82') else P.tools.convert_dataset_2412_to_82
    sets = clone(c['sets'])
    if c['via'] == 'file':
        sets = [s for s in sets if s['type'] == 2412]
        if not sets:
            ctx.trivial = True
            return
        q = ctx.path()
        lib('write_sets', P.UFF(q).write_sets, clone(sets))
        sets = aslist(read(P.UFF(q)), 'source file', len(sets))
    exp = []
    for i, s in enumerate(sets):
        if s['type'] != 2412 or 'quad' not in s:
            continue
        nodes = []
        for q in s['quad']['nodes_nums']:
            ring = [int(v) for v in list(q)[:4]]
            for a, b in zip(ring, ring[1:] + ring[:1]):
                nodes += [a, b, 0]
        if nodes:
            exp.append((i, nodes))
    src = tuple(sets) if c['tuple'] else sets
    before = clone(list(src))
    got = lib('convert_dataset_2412_to_82', f, src)
    require(isinstance(got, list) and len(got) == len(exp), f'{len(got)} trace lines, {len(exp)} expected')
    same(before, list(src), 'input')
    for k, (g, (i, nodes)) in enumerate(zip(got, exp)):
        w = f'trace line {k}'
        check_fields(g, [(('type',), 'i', 82), (('trace_num',), 'i', i), (('n_nodes',), 'i', len(nodes)), (('nodes',), 'i', np.array(nodes))], w)
        require(isinstance(g.get('id'), str) and g.get('color') == 0, f'{w}: id {g.get("id")!r}, color {g.get("color")!r}')
    full = [g for g in got if len(g['nodes'])]
    if full:
        p = ctx.path()
        lib('writing the trace lines', P.UFF(p).write_sets, clone(full))
        back = aslist(read(P.UFF(p)), 'trace lines read back', len(full))
        for k, (b, g) in enumerate(zip(back, full)):
            check_fields(b, [(('type',), 'i', 82), (('trace_num',), 'i', g['trace_num']), (('n_nodes',), 'i', len(g['nodes'])),
                             (('nodes',), 'i', np.asarray(g['nodes'])), (('color',), 'i', 0), (('id',), 's', g['id'])], f'trace line {k} read back')
    ctx.trivial = not any(n for _, n in exp)
    ctx.label(f'{len(exp)} element sets with quads', c['via'])

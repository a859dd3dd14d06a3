"""C07: a file behaves as an ordered list of sets under any write history."""
import os
import numpy as np
from hypothesis import strategies as st
from ..gens import text
from ..sets import ACTIVE, O, TYPES
from ..items import VIA, Named, item, items, enc_item, encode, enc_fields, fields, write, read, aslist, put, get, nontriv
from ..common import check_fields, clone, lib, require

RULE = ('Histories of 2..12 operations on one file through up to 3 UFF objects: add and overwrite writes of one set or of a list (all types, with and without unsupported ones that are left out, '
        'ASCII and binary), reads (all, one, list), index queries, reopening, refreshing, deletion, emptying, permutation of the sets in place, overwriting by a set of another type and equal length, at times with one time of modification throughout, the file named absolutely, relatively or by keyword, external appends and replacements (foreign '
        'rendering, with or without a last line end, in place or by renaming), writes to other files in between; a list is the reference model. Non-trivial: at least two writing operations '
        'of which one is not the first on an absent file.')
QUICK, THOROUGH = 8000, 80000
BATCH = 150


@st.composite
def _case(draw):
    o = O(big=False, huge=300, mid=True, nmax58=9, uni=draw(st.sampled_from([False, False, True])))
    n = draw(st.integers(2, 12))
    k = 0
    ops = []
    ignored = st.one_of(st.just([]), st.just([]), st.lists(st.tuples(st.integers(0, 3), st.sampled_from([9999, 56, 780, '58b', 1, 250])), min_size=1, max_size=2))
    ob = st.integers(0, 2)
    types = draw(st.sampled_from([TYPES, TYPES, [58, 58, 58, 15, 151, 2414], [58], [58, 82, 2411, 2412, 2420, 55]]))
    for _ in range(n):
        op = draw(st.sampled_from(['add', 'add', 'add', 'add1', 'add1', 'ow', 'ow', 'read', 'read', 'query', 'new', 'refresh', 'delete', 'append',
                                   'replace', 'other', 'header', 'stale-add', 'permute', 'same length', 'empty']))
        if op in ('add', 'ow', 'stale-add'):
            its = items(draw, 1, 3, o, types)
            dup = draw(st.sampled_from([None] * 5 + ['next', 'end', 'twice']))       # the same dictionary more than once in the list
            if dup:
                j = draw(st.integers(0, len(its) - 1))
                dup = [j, {'next': j + 1, 'end': len(its), 'twice': j}[dup]] + [dup == 'twice']
            ops.append((op, draw(ob), its, draw(st.sampled_from(['', '', 'upper'])), draw(ignored), dup))
        elif op == 'add1':
            ops.append((op, draw(ob), [item(draw, o, types)], '', []))
        elif op in ('append', 'replace'):
            m = draw(st.integers(1, 2))
            ops.append((op, [enc_item(draw, o, types) for _ in range(m)], draw(st.sampled_from([True, True, False])), draw(st.booleans())))
        elif op in ('read', 'header'):
            ops.append((op, draw(ob), draw(st.one_of(st.none(), st.integers(0, 40), st.lists(st.integers(0, 40), min_size=1, max_size=3)))))
        elif op == 'other':
            ops.append((op, [item(draw, o, types)]))
        elif op == 'same length':                          # two sets of different types that take equally many bytes
            ops.append((op, draw(ob), draw(st.lists(text(12), min_size=1, max_size=2)), draw(st.permutations([2429, 2467])), draw(st.booleans())))
        elif op == 'permute':
            ops.append((op, draw(ob), draw(st.sampled_from(['reverse', 'rotate', 'elsewhere', 'elsewhere']))))
        elif op in ('delete', 'empty'):
            if draw(st.booleans()):
                ops.append((op,))
        else:
            ops.append((op, draw(ob)))
    return {'ops': ops, 'stamp': draw(st.integers(0, 2)) == 0, 'via': draw(st.sampled_from(VIA)), 'end': draw(ob)}


def strategy(tier):
    return _case()


def run(c, ctx):
    with Named(ctx, c.get('via', 'name')) as UFF:
        _run(c, ctx, UFF)


def _run(c, ctx, UFF):
    p = ctx.path('history.uff')
    model = []                       # (fields, type, format)
    exists = False
    objs = [None, None, None]
    synced = [False] * 3
    writes = 0

    def obj(i):
        if objs[i] is None:
            objs[i] = lib('UFF', UFF, p)
            synced[i] = True
        return objs[i]

    def fresh(i):
        """An object whose view has to match the file."""
        u = obj(i)
        if not synced[i]:
            lib('refresh', u.refresh)
            synced[i] = True
        return u

    def entry(it, f):
        d = it['d']
        return f, d['type'], int(bool(d.get('binary', 0))) if d['type'] == 58 else 0, it

    def wrote(i):
        for j in range(3):
            synced[j] = j == i

    def query(u, w):
        require(u.get_n_sets() == len(model), f'{w}: {u.get_n_sets()} sets reported, {len(model)} are there')
        t = [int(v) for v in u.get_set_types()]
        require(t == [m[1] for m in model], f'{w}: types {t}, expected {[m[1] for m in model]}')
        f = [int(v) for v in u.get_set_formats()]
        require(f == [m[2] for m in model], f'{w}: formats {f}, expected {[m[2] for m in model]}')
        require(u.file_exists() == exists, f'{w}: file_exists() is {u.file_exists()}')

    def readall(u, w):
        g = read(u, what=w)
        if not model:
            require(isinstance(g, list) and not g, f'{w}: {g!r}, expected no sets')
            return
        for k, (a, m) in enumerate(zip(check_len(g, w), model)):
            check_fields(a, m[0], f'{w}: set {k} (type {m[1]})')

    def check_len(g, w):
        g = aslist(g, w, len(model))
        require(len(g) == len(model), f'{w}: {len(g)} sets read, {len(model)} are there')
        return g

    for step, op in enumerate(c['ops']):
        w = f'step {step} ({op[0]})'
        ctx.label(op[0])
        if c.get('stamp') and exists:                      # a copy that keeps the time, or two changes within one tick of the clock
            os.utime(p, ns=(10 ** 18, 10 ** 18))
        if op[0] in ('add', 'add1', 'ow', 'stale-add'):
            i = op[1]
            u = obj(i) if op[0] == 'stale-add' else fresh(i)
            mode = 'overwrite' if op[0] == 'ow' else 'add'
            if op[3]:
                mode = mode.upper()
            ds = [clone(it['d']) for it in op[2]]
            its = list(op[2])
            if len(op) > 5 and op[5]:
                j, at, twice = op[5]
                for _ in range(2 if twice else 1):
                    ds.insert(at, ds[j])
                    its.insert(at, its[j])
                ctx.label('one dictionary several times in a list')
            for at, t in op[4]:                            # sets of types the library does not write are left out
                ds.insert(at, {'type': t, 'data': [1.]} if at % 2 else {'type': t})
            if op[4]:
                ctx.label('with an unsupported set')
            lib(w, u.write_sets, ds if len(ds) != 1 else ds[0], mode, force_double=op[2][0]['fd'])
            if op[0] == 'ow':
                model.clear()
            model += [entry(it, fields(it)) for it in its]
            exists = True
            writes += 1
            wrote(i)
            query(u, w)
        elif op[0] == 'new':
            objs[op[1]] = None
            query(obj(op[1]), w)
        elif op[0] == 'refresh':
            u = obj(op[1])
            lib('refresh', u.refresh)
            synced[op[1]] = True
            query(u, w)
        elif op[0] == 'query':
            query(fresh(op[1]), w)
        elif op[0] == 'delete':
            if exists:
                os.unlink(p)
            model.clear()
            exists = False
            wrote(None)
        elif op[0] == 'empty':
            put(p, b'')
            model.clear()
            exists = True
            wrote(None)
        elif op[0] in ('append', 'replace'):
            data = b''.join(encode(it) for it in op[1])
            if not op[2]:
                data = data.rstrip(b'\r\n')
            old = get(p) or b''
            if op[0] == 'append' and old[-1:] not in (b'', b'\n', b'\r'):
                old += b'\n'
            if op[3]:                                      # another file takes the place of this one
                put(ctx.path('moved.uff'), data if op[0] == 'replace' else old + data)
                os.replace(ctx.path('moved.uff'), p)
            else:
                put(p, data if op[0] == 'replace' else old + data)
            if op[0] == 'replace':
                model.clear()
            model += [entry(it, enc_fields(it)) for it in op[1]]
            exists = True
            writes += 1
            wrote(None)
        elif op[0] == 'permute':                           # the same sets in another order: same length, other content
            if len(model) < 2:
                continue
            model[:] = model[1:] + model[:1] if op[2] == 'rotate' else model[::-1]
            if op[2] == 'elsewhere' or any('s' in m[3] for m in model) or len({m[3]['fd'] for m in model}) > 1:
                t = ctx.path('temp.uff')
                data = b''
                for m in model:
                    if 's' in m[3]:
                        data += encode(m[3])
                    else:
                        write(UFF(t), [m[3]], 'overwrite', what=w)
                        data += get(t)
                put(p, data)
                wrote(None)
            else:
                u = fresh(op[1])
                write(u, [m[3] for m in model], 'overwrite', what=w)
                wrote(op[1])
                query(u, w)
            writes += 1
        elif op[0] == 'same length':
            for t in op[3]:
                it = {'d': {'type': t, 'groups': [{'group_number': k, 'group_name': v, **{q: 0 for q in ACTIVE},
                                                   **{q: np.array([], int) for q in ('entity_type_code', 'entity_tag', 'entity_node_leaf_id', 'entity_component_id')}} for k, v in enumerate(op[2])]}, 'fd': True}
                i = op[1]
                u = fresh(i)
                write(u, [it], 'overwrite', what=w)
                model[:] = [entry(it, fields(it))]
                exists = True
                writes += 1
                wrote(i)
                if op[4]:
                    query(u, w)
            query(u, w)
            readall(u, w)
        elif op[0] == 'other':
            write(UFF(ctx.path('other.uff')), op[1], 'overwrite', what=w)
        elif op[0] in ('read', 'header') and exists:
            u = fresh(op[1])
            sel = op[2]
            if sel is not None and not model:
                continue
            if op[0] == 'header':
                sel = None if sel is None else [v % len(model) for v in sel] if isinstance(sel, list) else sel % len(model)
                read(u, sel, header_only=True, what=w)
            elif sel is None:
                readall(u, w)
            else:
                idx = [v % len(model) for v in (sel if isinstance(sel, list) else [sel])]
                g = read(u, idx if isinstance(sel, list) else idx[0], what=w)
                g = aslist(g, w, len(idx))
                require(len(g) == len(idx), f'{w}: {len(g)} sets')
                for a, k in zip(g, idx):
                    check_fields(a, model[k][0], f'{w}: set {k} (type {model[k][1]})')
    if c.get('stamp') and exists:
        os.utime(p, ns=(10 ** 18, 10 ** 18))
    if exists:
        readall(fresh(c['end']), 'end (same object)')
        readall(lib('UFF', UFF, p), 'end (new object)')
    query(lib('UFF', UFF, p), 'end')
    ctx.trivial = writes < 2
    ctx.label(f'{min(len(model), 9)} sets at the end')

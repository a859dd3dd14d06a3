"""C14: read, write, read is a fixed point."""
import os
import numpy as np
from hypothesis import strategies as st
from .. import env
from ..sets import T, O, TYPES
from ..items import item, enc_item, encode, aslist, put, get, nontriv
from ..common import Violation, check_fields, clone, lib, require, same

RULE = ('Start files: all sample files of the repository, files of 1..4 sets written by the library, and files rendered by the independent writer. What was '
        'read is written unprepared (force_double on or off, one call or one per set, 58 sets optionally switched between ASCII and binary), read, '
        'written and read again for up to 4 generations; the first copy must hold what was read at the precision of its form, every later copy must '
        'equal the first byte for byte (the sign of zero aside). Non-trivial: every case with at least one writable set.')
QUICK, THOROUGH = 9600, 100000
BATCH = 250
DATA = os.path.join(env.REPO, 'data')


def samples():
    return sorted(f for f in os.listdir(DATA) if os.path.isfile(os.path.join(DATA, f)))


def fixed_cases(tier):
    return [{'src': 'sample', 'name': f, 'fd': fd, 'flip': fl, 'each': ea, 'gens': 3} for f in samples()
            for fd, fl, ea in ((True, False, False), (False, False, True), (True, True, True), (False, True, False))]


@st.composite
def _case(draw):
    src = draw(st.sampled_from(['own', 'foreign', 'foreign']))
    o = O(big=draw(st.integers(0, 3)) == 0, huge=700, nmax58=draw(st.sampled_from([None, 12, 12])), uni=draw(st.sampled_from([False, True])))
    n = draw(st.integers(1, 4))
    types = draw(st.sampled_from([TYPES, TYPES, [draw(st.sampled_from(TYPES))]]))
    its = []
    for _ in range(n):
        if src == 'own':
            its.append(item(draw, o, types))
        else:
            i = enc_item(draw, o, types)
            d = i['d']
            if d['type'] == 58:                          # what the writer supports
                if d['func_type'] not in T[58].funcs:
                    d['func_type'] = draw(st.sampled_from(T[58].funcs))
                if len(d['data']) < 2:
                    d['x'], d['data'] = [0.0, 1.0], [1.0, -2.5]
                    d['ord_data_type'] = 4 if d['ord_data_type'] in (4, 6) else 2
            if draw(st.integers(0, 4)) == 0:             # an undecodable byte within its text
                i['bad'] = draw(st.tuples(st.integers(0, 10 ** 6), st.sampled_from([0x80, 0xe4, 0xff, 0xc3, 0xf0])))
            its.append(i)
    return {'src': src, 'its': its, 'fd': draw(st.booleans()), 'flip': draw(st.integers(0, 3)) == 0, 'each': draw(st.booleans()),
            'gens': draw(st.integers(2, 4))}


def strategy(tier):
    return _case()


def fits_single(s):
    return all(np.all(np.abs(v) < 3.4e38) for v in (s['x'], np.real(s['data']), np.imag(s['data'])))


def spoilt(i):
    b = encode(i)
    if 'bad' in i:
        end = len(b''.join(b.splitlines(True)[:13])) if i['d']['type'] == 58 else len(b)
        at = [k for k in range(end) if chr(b[k]).isascii() and chr(b[k]).isalpha() and chr(b[k]) not in 'bBdDeE']
        if at:
            k = at[i['bad'][0] % len(at)]
            b = b[:k] + bytes([i['bad'][1]]) + b[k + 1:]
    return b


def run(c, ctx):
    UFF = ctx.pyuff.UFF
    p = ctx.path('start.uff')
    if c['src'] == 'sample':
        with open(os.path.join(DATA, c['name']), 'rb') as fh:
            data = fh.read()
        put(p, data)
    elif c['src'] == 'own':
        for i in c['its']:
            lib('write_sets', UFF(p).write_sets, clone(i['d']), 'add', force_double=i['fd'])
    else:
        put(p, b''.join(spoilt(i) for i in c['its']))

    def rd(q, w):
        g = lib(f'{w}: read_sets', UFF(q).read_sets)
        return [g] if isinstance(g, dict) else g

    def wr(sets, q, w):
        u = UFF(q)
        for part in ([[s] for s in sets] if c['each'] else [sets]):
            lib(f'{w}: write_sets', u.write_sets, part, 'add', force_double=c['fd'])
        return get(q)

    src = [s for s in rd(p, 'start file') if s['type'] in T]
    src = [s for s in src if s['type'] != 58 or (s['func_type'] in T[58].funcs and len(s['data']) >= 2)]
    if not src:
        ctx.trivial = True
        return
    if c['src'] != 'sample':
        require([s['type'] for s in src] == [i['d']['type'] for i in c['its']], f'types {[s["type"] for s in src]} read')
    if c['flip']:
        for s in src:
            if s['type'] == 58 and fits_single(s):
                s['binary'] = 0 if s['binary'] else 1
    exp = [T[s['type']].fields(clone(s), c['fd']) for s in src]
    first = wr(src, ctx.path(), 'first copy')
    q = ctx.path()
    put(q, first)
    prev = rd(q, 'first copy')
    require(len(prev) == len(src), f'first copy: {len(prev)} sets, {len(src)} written')
    for k, (g, f) in enumerate(zip(prev, exp)):
        check_fields(g, f, f'first copy: set {k} (type {src[k]["type"]})')
    for n in range(2, c['gens'] + 1):
        w = f'generation {n}'
        q = ctx.path()
        b = wr(clone(prev), q, w)
        if n == 2 and len(b) == len(first) and all(x == y or (x, y) in ((0x2d, 0x20), (0x80, 0)) for x, y in zip(first, b)):
            first = b                                    # the sign of a complex zero; same() compares the values
        if b != first:
            i = next((i for i, (x, y) in enumerate(zip(first, b)) if x != y), min(len(first), len(b)))
            raise Violation(f'{w}: differs from the first copy at byte {i}: {first[max(0, i - 20):i + 20]!r} / {b[max(0, i - 20):i + 20]!r}')
        now = rd(q, w)
        same(prev, now, w)
        prev = now
    ctx.label(c['src'], *(f'type {s["type"]}' for s in src))

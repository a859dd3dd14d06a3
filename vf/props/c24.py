"""C24: whatever bytes a file holds, it can be opened, looked at and extended."""
import re
from hypothesis import strategies as st
from ..gens import text, ints
from ..sets import O, TYPES, Style
from ..items import item, enc_item, encode, fields, read, put, get, aslist
from ..common import check_fields, clone, lib, require, same

RULE = ('Byte strings put together from delimiters and near-delimiters, type lines, line ends of all kinds, numbers, text, runs of blanks, arbitrary bytes, and whole, cut, reversed or altered sets of all types. '
        'Opening must succeed; the number of sets, their types and formats must be those an independent reading of the delimiter rule gives; each set must be read or refused on its own, and reading all of them '
        'must give just these results or be refused; nothing may change the file; a set added behind complete sets must be indexed and read, with all sets before it as they were; fix_58b must not touch its source. '
        'Non-trivial: at least one set by the delimiter rule.')
QUICK, THOROUGH = 12000, 160000
BATCH = 250

D = b'    -1'
NEAR = [b'   -1', b'     -1', b'    -1 ', b'    -12', b'    -1.', b'    -1\t', b'\t-1', b'-1', b'    -1' + b' ' * 73, b'    -1' + b' ' * 75, b'    -1' + b' ' * 73 + b'x', b'    -1' * 2, b'    - 1',
        b'    -1\x0b', b'    -1\x0c', b'    -1\x00', b'    -1\x85', b'    -1\x1c', b'    -1' + b' ' * 40]
EOLS = [b'\n', b'\r\n', b'\r', b'\n\n', b'\r\r\n', b'\n\r']
KNOWN = [15, 18, 55, 58, 82, 151, 164, 1858, 2400, 2411, 2412, 2414, 2420, 2429, 2467]


@st.composite
def _frag(draw, its):
    k = draw(st.sampled_from(['delim'] * 5 + ['near', 'near', 'type', 'type', 'type', 'eol', 'eol', 'num', 'text', 'blank', 'bytes', 'set', 'set', 'set', 'piece', 'piece', 'mini', 'mini', 'mini']))
    e = draw(st.sampled_from(EOLS[:3] + EOLS))
    if k == 'delim':
        return draw(st.sampled_from([D, D, D + b' ' * 74, D + b' ' * draw(st.integers(74, 700)) + draw(st.sampled_from([b'', b'text', b'1' * 99]))])) + draw(st.sampled_from([e, e, e, b'']))
    if k == 'near':
        return draw(st.sampled_from(NEAR)) + draw(st.sampled_from([e, b'']))
    if k == 'type':
        t = draw(st.one_of(st.sampled_from(KNOWN), ints(0, 999999)))
        f = draw(st.sampled_from(['%6d', '%6d', '%6d', '%-6d', '%d', '%5d', '%7d', ' %d', '%06d']))
        return (f % t).encode() + draw(st.sampled_from([b'', b'', b'b', b'B', b' ' * 74, b'b     1     2          11          48     0     0           0           0', b'x', b' b'])) + e
    if k == 'eol':
        return e
    if k == 'num':
        return b''.join(draw(st.lists(st.one_of(ints(-99, 999999999).map(lambda v: b'%10d' % v), st.floats(-1e9, 1e9).map(lambda v: b'%13.5e' % v)), min_size=1, max_size=8))) + e
    if k == 'text':
        return draw(text(40, True)).encode() + e
    if k == 'blank':
        return b' ' * draw(st.sampled_from([1, 4, 5, 6, 73, 74, 75, 80])) + draw(st.sampled_from([e, b'']))
    if k == 'bytes':
        return draw(st.binary(max_size=20))
    if k == 'mini':                                         # a set of a few lines of drawn text
        ls = draw(st.lists(st.one_of(text(30).map(str.encode), ints(-9, 99999).map(lambda v: b'%10d' % v)), max_size=4))
        return D + e + b'%6d' % draw(st.sampled_from(KNOWN + [9999])) + draw(st.sampled_from([b'', b'', b'b'])) + e + b''.join(v + e for v in ls) + D + e
    b = its[draw(st.integers(0, len(its) - 1))]
    if k == 'piece':
        i = draw(st.integers(0, len(b)))
        j = draw(st.integers(0, len(b)))
        return b[min(i, j):max(i, j)]
    how = draw(st.sampled_from(['whole', 'whole', 'whole', 'whole', 'body', 'noend', 'nostart', 'lines', 'chars']))
    if how == 'body':
        return b[b.index(D) + 6:b.rindex(D)]
    if how == 'noend':
        return b[:b.rindex(D)]
    if how == 'nostart':
        return b[b.index(D) + 6:]
    if how == 'lines':
        return b''.join(b.splitlines(True)[::draw(st.sampled_from([-1, 2]))])
    if how == 'chars':
        c = bytearray(b)
        for _ in range(draw(st.integers(1, 5))):
            c[draw(st.integers(0, len(c) - 1))] = draw(st.sampled_from(b' \n\r-019.Eb\x00\xff'))
        return bytes(c)
    return b


@st.composite
def _case(draw):
    o = O(big=False, nmax58=9, uni=True)
    its = [encode(enc_item(draw, o, TYPES, Style.draw(draw))) for _ in range(draw(st.integers(1, 2)))]
    data = b''.join(draw(st.lists(_frag(its), min_size=draw(st.sampled_from([0, 2, 5, 9])), max_size=14)))
    return {'data': data, 'more': item(draw, o, TYPES), 'same': draw(st.booleans())}


def strategy(tier):
    return _case()


def delimiters(data):
    """'    -1' behind which the line or the file ends, or holds blanks up to its 80th column."""
    return [m.start() for m in re.finditer(rb'    -1(?=[\n\r]|\Z| {74})', data)]


def number(line):
    """The number in the first six columns, where they hold nothing else."""
    m = re.fullmatch(rb' *([0-9]+) *', line[:6])
    return int(m.group(1)) if m else None


def run(c, ctx):
    UFF = ctx.pyuff.UFF
    data = c['data']
    p = ctx.path('any.uff')
    put(p, data)
    d = delimiters(data)
    n = len(d) // 2
    u = lib('UFF()', UFF, p)
    require(u.get_status() == True, f'status {u.get_status()}')          # noqa: E712
    require(u.get_n_sets() == n, f'{u.get_n_sets()} sets, {n} by the delimiter rule')
    types, formats = list(u.get_set_types()), list(u.get_set_formats())
    require(len(types) == len(formats) == n, f'{len(types)} types and {len(formats)} formats for {n} sets')
    for k in range(n):
        ls = data[d[2 * k]:d[2 * k + 1]].splitlines()
        head = ls[1] if len(ls) > 1 else b''
        t = number(head)
        if t is not None:
            require(int(types[k]) == t, f'set {k}: type {types[k]}, its line says {t}')
            b = int(head[6:7] in (b'b', b'B'))
            require(int(formats[k]) == b, f'set {k}: format {formats[k]}, its line says {b}')
        ctx.label('type line ' + ('with a number' if t is not None else 'without a number'))
    alone = []
    for k in range(n):
        v = u if c['same'] else UFF(p)
        try:
            alone.append(v.read_sets(k))
            ok = True
        except MemoryError:
            alone.append(None)
            ok = False
        except Exception:                                   # noqa: BLE001
            alone.append(None)
            ok = False
        ctx.label(('supported' if int(types[k]) in KNOWN else 'unsupported') + (' set read' if ok else ' set refused'))
        if ok:
            g = alone[-1]
            require(isinstance(g, dict), f'set {k}: read as {type(g).__name__}')
            require('type' in g and int(g['type']) == int(types[k]), f'set {k} of type {types[k]} was read as {str(g)[:80]}')
            if int(types[k]) not in KNOWN:
                require(set(g) == {'type'}, f'set {k} of unsupported type {types[k]} was read as {str(g)[:80]}')
        else:
            require(int(types[k]) in KNOWN, f'set {k} of unsupported type {types[k]} was refused')
        require(get(p) == data, f'reading set {k} changed the file')
    try:
        r = u.read_sets()
        bad = False
    except Exception:                                       # noqa: BLE001
        bad = True
    require(bad == any(a is None for a in alone), f'reading all sets {"fails" if bad else "works"}, but {sum(a is None for a in alone)} of {n} fail alone')
    if not bad:
        for k, (a, b) in enumerate(zip(aslist(r, 'read_sets()', n), alone)):
            same(b, a, f'set {k} read with the others')
    lib('refresh', u.refresh)
    require(u.get_n_sets() == n and [int(t) for t in u.get_set_types()] == [int(t) for t in types], 'another index after refresh()')
    require(get(p) == data, 'looking at the file changed it')
    q = ctx.path('fixed.uff')
    try:
        ctx.pyuff.fix_58b(p, q)
    except Exception:                                       # noqa: BLE001
        ctx.label('fix_58b refused')
    require(get(p) == data, 'fix_58b changed its source')
    if len(d) % 2 == 0:
        m = c['more']
        lib('adding a set', u.write_sets, clone(m['d']), 'add', force_double=m['fd'])
        require(get(p).startswith(data), 'adding a set changed what was there')
        for v, w in ((u, 'object that added'), (UFF(p), 'new object')):
            t = [int(x) for x in v.get_set_types()]
            require(t == [int(x) for x in types] + [m['d']['type']], f'{w}: types {t} after adding {m["d"]["type"]} to {[int(x) for x in types]}')
        check_fields(read(v, n, what='reading the added set'), fields(m), 'added set')
        for k, a in enumerate(alone):
            if a is not None:
                same(a, read(v, k, what=f'set {k} after adding one'), f'set {k} after adding one')
    ctx.trivial = n == 0
    ctx.label(f'{min(n, 9)} sets')

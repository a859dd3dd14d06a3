"""Files put together from sets, foreign sets, stray text and an unfinished set."""
from hypothesis import strategies as st
from .gens import text, ints
from .sets import O, TYPES, Style
from .items import item, twin, enc_item, encode, enc_fields, fields, write, get

UNSUPPORTED = [1, 3, 25, 30, 59, 90, 156, 157, 158, 666, 781, 1530, 2401, 2410, 2413, 2415, 2435, 2477, 3000, 9999, 99999]


def pad(s, w=80):
    return s.ljust(w)


@st.composite
def parts(draw, lo=0, hi=5, types=TYPES, o=None, stray=True, unfinished=True):
    """[('own'|'enc', item) | ('unsup', type, lines, style) | ('stray', lines) | ('fill', block, offset, which) | ('many', type, n)] and the tail."""
    o = o or O(big=False, nmax58=9, uni=draw(st.booleans()))
    one = Style.draw(draw) if draw(st.booleans()) else None
    r = []
    for _ in range(draw(st.integers(lo, hi))):
        k = draw(st.sampled_from(['own', 'enc', 'enc', 'enc', 'unsup', 'unsup'] + ['stray'] * stray))
        if k == 'own':
            r.append(('own', item(draw, o, types + [58] * 6)))
        elif k == 'enc':
            r.append(('enc', enc_item(draw, o, types + [58] * 6, one)))
        elif k == 'unsup':
            r.append(('unsup', draw(st.sampled_from(UNSUPPORTED)), draw(st.lists(line(), max_size=5)), one or Style.draw(draw)))
        else:
            r.append(('stray', draw(st.lists(line(), min_size=1, max_size=3)), one or Style.draw(draw)))
    two = [i for i, p in enumerate(r) if p[0] in ('own', 'enc')]
    if two and draw(st.integers(0, 3)) == 0:             # the same set again, or the same header with other values
        p = r[two[-1]]
        r.append((p[0], twin(draw, p[1])))
    extra = draw(st.integers(0, 15))
    if extra == 0 and stray:                            # a delimiter of the next set astride a block boundary of the file
        b = draw(st.sampled_from([512, 1024, 4096, 4096, 8192, 8192, 16384, 32768, 65536, 65536, 131072, 262144, 1 << 20, 1 << 24]))
        r.insert(draw(st.integers(0, len(r))), ('fill', b, draw(st.one_of(st.integers(0, 9), st.integers(0, 81))), draw(st.sampled_from(['open', 'close'])), one or Style.draw(draw)))
    elif extra == 1:
        r.insert(draw(st.integers(0, len(r))), ('many', draw(st.sampled_from(UNSUPPORTED)), draw(st.sampled_from([9, 10, 11, 30, 64, 99, 100, 101, 128, 129, 256, 257])),
                                                one or Style.draw(draw)))
    tail = 'eol'
    if r and unfinished:
        tail = draw(st.sampled_from(['eol', 'eol', 'none', 'unfinished']))
    return {'parts': r, 'tail': tail}


def line():
    num = st.lists(ints(0, 999999999), min_size=1, max_size=8).map(lambda v: ''.join('%10d' % k for k in v))
    m1 = st.sampled_from(['   -1', '     -1', '    -1 x', '    -12', '-1', '    -1.0', 'x   -1', '      -1.00000E+00', '    58', '    58b', '\t-1',
                          '    -1' + ' ' * 40 + 'x', '', '', ' ' * 80])
    return st.one_of(text(80), text(80, True), num, m1).map(fit)


def fit(s):
    return s if not s.rstrip().endswith('    -1') else s + '7'


def render(ctx, q):
    """(bytes, [(fields or None, type, format)], whether the last set is unfinished)"""
    out, model, unfin, fill = b'', [], False, None
    ps = q['parts']
    for i, p in enumerate(ps):
        last = i == len(ps) - 1
        if p[0] == 'own':
            f = ctx.path()
            write(ctx.pyuff.UFF(f), [p[1]])
            b, m = get(f), (fields(p[1]), p[1]['d']['type'], fmt(p[1]))
        elif p[0] == 'enc':
            b, m = encode(p[1]), (enc_fields(p[1]), p[1]['d']['type'], fmt(p[1]))
        else:
            s = Style(**p[-1])
            e, d = s.eol, '    -1' + (' ' * 74 if s.pad_delim else '')
            if p[0] == 'fill':
                b, m, fill = b'', None, p
            elif p[0] == 'many':
                b, m = e.join([d, '%6d' % p[1], d, '']).encode() * (p[2] - 1), None
                model += [(None, p[1], 0)] * (p[2] - 1)
                b += e.join([d, '%6d' % p[1], d, '']).encode()
                m = (None, p[1], 0)
            elif p[0] == 'unsup':
                h = '%6d' % p[1]
                b = e.join([d, pad(h) if s.pad_head else h] + p[2] + [d, '']).encode()
                m = (None, p[1], 0)
            else:
                b, m = (e.join(p[1]) + e).encode(), None
        if last and q['tail'] == 'unfinished' and m:
            b, m, unfin = b[:b.rindex(b'    -1')], None, True
        if fill and b and m:
            e = Style(**fill[4]).eol.encode()
            at = b.rindex(b'    -1') if fill[3] == 'close' else b.index(b'    -1')
            k = (fill[1] - fill[2] - len(out) - at) % fill[1]
            if k < 2:
                k += fill[1]
            t = (b'x' * 60 + e) * max(0, (k - 20) // (60 + len(e)))
            b = t + b'y' * (k - len(t) - len(e)) + e + b
            fill = None
        out += b
        if m:
            model.append(m)
    if q['tail'] == 'none':
        out = out.rstrip(b'\r\n')
    return out, model, unfin


def fmt(it):
    return int(bool(it['d'].get('binary', 0))) if it['d']['type'] == 58 else 0

"""C18: text is kept exactly; undecodable text does not block the data."""
from hypothesis import strategies as st
from ..gens import clean_text, _ASCII, _UFILL, _CACHE
from ..sets import T, O, Style
from ..sets import decode_file
from ..items import item, items, enc_item, encode, enc_fields, write, read, check_sets, aslist, put, get, nontriv
from ..common import check_fields, dig, lib, require, show

RULE = ('write: 1..3 sets with text of any script in every text field (up to the full column width), written by the library, read back and also decoded by the '
        'independent reader; damaged: foreign files of 1..4 sets whose text fields hold bytes that are not UTF-8 (single bytes 0x80..0xFF at drawn places, '
        'between ASCII and valid multi-byte characters): all sets indexed, every number and every other character as intended. '
        'Non-trivial: at least one non-ASCII character or undecodable byte.')
QUICK, THOROUGH = 12800, 150000
BATCH = 250
TEXT = [18, 55, 58, 58, 82, 151, 164, 1858, 2400, 2414, 2420, 2429, 2467]
BAD = '\ue000'                              # stands for an undecodable byte
BYTES = [0x80, 0x85, 0x8d, 0x9f, 0xa0, 0xb0, 0xb5, 0xbf, 0xc0, 0xc3, 0xc4, 0xdf, 0xe4, 0xe9, 0xef, 0xf0, 0xf4, 0xf6, 0xfc, 0xfe, 0xff]


class OB(O):
    """Text with undecodable bytes."""

    def text(self, w):
        k = ('bad', w)
        if k not in _CACHE:
            one = st.sampled_from(['B', 'B', 'a', 'Z', '1', '-', ' ', '.', 'é', '中', 'µ'])
            _CACHE[k] = st.one_of(
                st.sampled_from(['', 'NONE', 'plain', BAD, 'a' + BAD, BAD + 'b', 'Stra' + BAD + 'e', 'M' + BAD + 'ller', '10 ' + BAD + 'C', 'é' + 'a' + BAD]),
                st.lists(one, max_size=min(w, 12)).map(self.spread),
                st.sampled_from([w, w - 1]).map(lambda n: (('x' + BAD) * w)[:n])).map(lambda s: self.last(clean_text(s, w), w))
        return _CACHE[k]

    @staticmethod
    def last(s, w):
        return s[:-1] + 'q' if len(s) == w and s.endswith(BAD) else s      # the next field follows at once

    @staticmethod
    def spread(chars):
        """An undecodable byte is followed by ASCII: it is one character then."""
        s = ''
        for c in chars:
            if s.endswith(BAD) and not (c.isascii() and c != 'B'):
                c = 'q'
            s += BAD if c == 'B' else c
        return s


@st.composite
def _case(draw):
    if draw(st.booleans()):
        o = O(uni=True, big=False, nmax58=9, opt=draw(st.booleans()))
        return {'kind': 'write', 'its': items(draw, 1, 3, o, TEXT)}
    o = OB(big=False, nmax58=9, opt=draw(st.integers(0, 2)) == 0)
    its = [enc_item(draw, o if draw(st.integers(0, 3)) else O(big=False, nmax58=9), TEXT) for _ in range(draw(st.integers(1, 4)))]
    return {'kind': 'damaged', 'its': its, 'bytes': draw(st.lists(st.sampled_from(BYTES), min_size=1, max_size=8))}


def strategy(tier):
    return _case()


def texts(o):
    if isinstance(o, str):
        return o
    if isinstance(o, dict):
        return ''.join(texts(v) for v in o.values())
    if isinstance(o, (list, tuple)):
        return ''.join(texts(v) for v in o if isinstance(v, (str, dict)))
    return ''


def run(c, ctx):
    P = ctx.pyuff
    p = ctx.path()
    its = c['its']
    ctx.label(c['kind'])
    nontriv(ctx, its)
    if c['kind'] == 'write':
        write(P.UFF(p), its)
        check_sets(read(P.UFF(p)), its, 'read back')
        g = lib('decoding the file as UTF-8', decode_file, get(p))
        check_sets(g if len(g) != 1 else g[0], its, 'layout')
        ctx.trivial = texts([i['d'] for i in its]).isascii()
        return
    data = b''.join(encode(i) for i in its)
    mark, n, out = BAD.encode(), 0, b''
    for part in data.split(mark):
        out += part + bytes([c['bytes'][n % len(c['bytes'])]])
        n += 1
    put(p, out[:-1])
    u = lib('opening', P.UFF, p)
    t = [int(v) for v in u.get_set_types()]
    require(t == [i['d']['type'] for i in its], f'types {t}')
    for k, i in list(enumerate(its)) + list(enumerate(its))[::-1]:
        g = lib(f'read_sets({k})', u.read_sets, k)
        compare(g, enc_fields(i), f'set {k} (type {i["d"]["type"]})')
    for k, (g, i) in enumerate(zip(aslist(read(u), 'read_sets()', len(its)), its)):
        compare(g, enc_fields(i), f'all sets: set {k} (type {i["d"]["type"]})')
    for k, i in enumerate(its):
        if i['d']['type'] == 58:
            g = lib('header_only', u.read_sets, k, header_only=True)
            compare(g, T[58].fields(i['d'], i['fd'], header_only=True), f'header of set {k}')
    require(get(p) == out[:-1], 'reading changed the file')
    ctx.trivial = n < 2


def compare(got, fields, w):
    plain = []
    for path, kind, exp in fields:
        if kind == 's' and BAD in (exp if isinstance(exp, str) else ''.join(exp)):
            g = dig(got, path, w)
            for a, b in zip([g] if isinstance(exp, str) else list(g), [exp] if isinstance(exp, str) else exp):
                require(isinstance(a, str) and len(a) == len(b) and all(x == y or y == BAD for x, y in zip(a, b)),
                        f'{w}:{"/".join(map(str, path))}: got {show(a)}, expected {b.replace(BAD, "?")!r} (? undecodable)')
            if not isinstance(exp, str):
                require(len(g) == len(exp), f'{w}: {len(g)} entries')
        else:
            plain.append((path, kind, exp))
    check_fields(got, plain, w)

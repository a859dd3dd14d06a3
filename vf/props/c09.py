"""C09: files from other software in the published layout are read correctly."""
from hypothesis import strategies as st
from ..sets import O, TYPES, Style
from ..items import twins, enc_item, encode, enc_fields, read, aslist, put, get, nontriv
from ..common import check_fields, lib, require

RULE = ('1..4 sets of any supported types are rendered by an independent writer of the published layouts in a drawn style (LF/CRLF, padded '
        'delimiters/heads/texts or not, E/D exponents of either case where the layout has them, 11/12 digits, wrapped records, zero-filled last '
        'lines, byte order, last line end or not) and read. Non-trivial: every case (style differs from pyuff\'s own rendering in at least one point '
        'or the values do).')
QUICK, THOROUGH = 20000, 160000


@st.composite
def _case(draw):
    uni = draw(st.sampled_from([False, False, True]))
    one = Style.draw(draw) if draw(st.booleans()) else None
    fs = [enc_item(draw, O(uni=uni), TYPES + [58, 58, 58], one)]
    if draw(st.booleans()):
        fs += [enc_item(draw, O(uni=uni, big=False, nmax58=20), TYPES + [58, 58, 58], one) for _ in range(draw(st.integers(1, 3)))]
        twins(draw, fs)
    return {'its': fs, 'final_eol': draw(st.sampled_from([True, True, False]))}


def strategy(tier):
    return _case()


def run(c, ctx):
    p = ctx.path()
    its = c['its']
    data = b''.join(encode(i) for i in its)
    if not c['final_eol']:
        data = data.rstrip(b'\r\n')
    put(p, data)
    u = lib('UFF', ctx.pyuff.UFF, p)
    require([int(v) for v in u.get_set_types()] == [i['d']['type'] for i in its], f'types {list(u.get_set_types())}')
    g = aslist(read(u), 'read', len(its))
    require(len(g) == len(its), f'{len(g)} sets')
    for k, (a, it) in enumerate(zip(g, its)):
        check_fields(a, enc_fields(it), f'set {k} (type {it["d"]["type"]})')
        if it['d']['type'] == 58:
            ctx.label(f"58{'b' if it['d'].get('binary') else ''} " + ('big' if it['s']['bo'] == 2 else 'little'))
    require(get(p) == data, 'reading changed the file')
    ctx.label('CRLF' if its[0]['s']['eol'] == '\r\n' else 'LF')
    nontriv(ctx, its)

"""C08: written files follow the published column layout."""
from hypothesis import strategies as st
from ..sets import O, TYPES, decode_file
from ..items import item, items, twins, enc_item, encode, fields, write, put, get, nontriv
from ..common import Violation, check_fields, require

RULE = ('1..3 sets of any supported type (all storage forms of 58, all optional subsets) are written (at times behind sets or text of another program, the last line ended or not); an independent fixed-column reader, which '
        'knows only the published record layouts, parses the bytes and has to recover every value, every count and the order. '
        'Non-trivial: every case (a non-empty file is parsed completely).')
QUICK, THOROUGH = 24000, 160000


@st.composite
def _case(draw):
    o = O(uni=draw(st.sampled_from([False, False, True])))
    its = [item(draw, o, TYPES + [58, 58])]
    if draw(st.integers(0, 3)) == 0:
        its += [item(draw, O(big=False, nmax58=20)) for _ in range(draw(st.integers(1, 2)))]
        twins(draw, its)
    before = draw(st.sampled_from([None, None, None, 'whole', 'open', 'text']))      # what the file holds already
    if before in ('whole', 'open'):
        before = [before, enc_item(draw, O(big=False, nmax58=9), [t for t in TYPES if t != 58])]
    return {'its': its, 'mode': draw(st.sampled_from(['add', 'overwrite'])), 'before': before}


def strategy(tier):
    return _case()


def run(c, ctx):
    p = ctx.path()
    old = b''
    if c.get('before') == 'text':
        old = b'some text'
    elif c.get('before'):
        old = encode(c['before'][1])
        old = old.rstrip(b'\r\n') if c['before'][0] == 'open' else old
    if old:
        put(p, old)
        ctx.label('written to a file with ' + ('text' if c['before'] == 'text' else 'sets'))
    u = ctx.pyuff.UFF(p)
    for k, it in enumerate(c['its']):
        write(u, [it], c['mode'] if k == 0 else 'add')
    data = get(p)
    if old and c['mode'] == 'add':
        require(data.startswith(old), 'what the file held before was changed by an add')
        data = data[len(old):]
        if old[-1:] not in (b'\r', b'\n'):
            require(data[:1] == b'\n', f'no line end between the old end of the file and the new set: {data[:10]}')
            data = data[1:]
    try:
        dec = decode_file(data)
    except UnicodeDecodeError as e:
        raise Violation(f'layout: {e}')
    require(len(dec) == len(c['its']), f'{len(dec)} sets in the file, {len(c["its"])} written')
    for k, (g, it) in enumerate(zip(dec, c['its'])):
        check_fields(g, fields(it), f'set {k} (type {it["d"]["type"]}) by the published columns')
    nontriv(ctx, c['its'])

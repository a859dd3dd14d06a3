"""Write-then-read round trip shared by C03-C06."""
from hypothesis import strategies as st
from ..sets import O
from ..items import item, items, twins, check_sets, write, read, nontriv, put
from ..common import lib, require


def case(types):
    @st.composite
    def _case(draw):
        o = O(uni=draw(st.sampled_from([False, False, True])))
        its = [item(draw, o, types)]
        if draw(st.integers(0, 4)) == 0:
            its += [item(draw, O(big=False), types) for _ in range(draw(st.integers(1, 2)))]
            twins(draw, its)
        return {'its': its, 'pos': draw(st.sampled_from(['list', 'each', 'overwrite', 'junk'])), 'same': draw(st.booleans()),
                'fd': draw(st.booleans())}
    return _case()


def run(c, ctx, prepare=None):
    p = ctx.path()
    its = c['its']
    if c['pos'] == 'junk':                           # replaces whatever was there
        put(p, b'some text\n    -1\n  9999\nabc\n    -1\n')
    u = lib('UFF', ctx.pyuff.UFF, p)
    mode = 'overwrite' if c['pos'] in ('overwrite', 'junk') else 'add'
    src = [prepare(i) for i in its] if prepare else its
    if c['pos'] == 'each':
        for i in src:
            write(u, [i], fd=c['fd'])
    else:
        write(u, src, mode, fd=c['fd'])
    r = u if c['same'] else lib('UFF', ctx.pyuff.UFF, p)
    require([int(v) for v in r.get_set_types()] == [i['d']['type'] for i in its], f'set types {list(r.get_set_types())}')
    check_sets(read(r), its, 'read back')
    nontriv(ctx, its)

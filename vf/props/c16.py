"""C16: fix_58b repairs misplaced delimiters and loses nothing."""
import os
import re
from hypothesis import strategies as st
from ..sets import T, O, Style, TYPES
from ..items import item, enc_item, encode, enc_fields, fields, write, read, aslist, put, get, nontriv
from ..foreign import UNSUPPORTED, line
from ..common import check_fields, lib, must_raise, require

RULE = ('Files of 1..4 sets (58b of both byte orders and precisions, ASCII 58, every other type and unsupported ones; rendered by the independent writer or by the library) in '
        'which the closing delimiter of a drawn subset of the 58b sets stands on a line of its own; LF or CRLF, padded or not, with or without last line '
        'end; repaired to the default or a given name, repaired a second time, and extended. Non-trivial: at least one 58b set.')
ASCII_SHARDS = False              # names of files go beyond ASCII
QUICK, THOROUGH = 11200, 120000
BATCH = 250
NAMES = ['f.uff', 'f.UNV', 'a.b.uff', 'noext', 'with blank.uff', 'é.uff', 'd.ir/f.uff', 'd.ir/noext', 'f.uff.uff', 'd.uff/f.uff', 'fixed_fixed.uff', 'uff', '.uff', 'd.uff/.hidden.uff']
ASSUMPTIONS = ['58b bodies that end in 0x0A or 0x0D, or in blanks behind one, are kept out (known finding K7)']


@st.composite
def _case(draw):
    o = O(big=draw(st.integers(0, 7)) == 0, nmax58=draw(st.sampled_from([12, 12, 40])))
    n = draw(st.integers(1, 4))
    style = {**Style.draw(draw)}
    style['pad_delim'] = style['pad_delim'] and draw(st.booleans())
    bins = O(big=o.big, huge=300, nmax58=o.nmax58, forms58=[f for f in T[58].ALL_FORMS if f[2]])
    its = []
    for k in range(n):
        if draw(st.integers(0, 2)):
            i = enc_item(draw, bins, [58], {**style, 'bo': draw(st.sampled_from([1, 2]))})
            i['own'] = draw(st.booleans())
        elif draw(st.integers(0, 2)):
            i = enc_item(draw, o, TYPES + [58], style)
        else:
            i = {'d': {'type': draw(st.sampled_from(UNSUPPORTED))}, 'lines': draw(st.lists(line(), max_size=3)), 's': style}
        its.append(i)
    own = draw(st.integers(0, 3)) == 0
    if own:                                               # written by the library: no fault
        its = [item(draw, o if draw(st.booleans()) else bins, TYPES + [58] * 8) for _ in range(n)]
    return {'its': its, 'eol': draw(st.booleans()), 'name': draw(st.sampled_from(NAMES)), 'to': draw(st.sampled_from([None, None, 'out.uff', 'out', 'same'])),
            'more': item(draw, O(big=False, nmax58=9), TYPES)}


def strategy(tier):
    return _case()


def risky(block):
    """The body of a 58b set ends in a line break or in blanks behind one."""
    m = re.search(rb'[\r\n][ \t\v\f]*\Z', block)
    return m is not None


def run(c, ctx):
    P = ctx.pyuff
    parts, fl, ty, tails, faults, blank = [], [], [], [], 0, False
    for i in c['its']:
        d = i['d']
        if 'lines' in i:
            s = Style(**i['s'])
            dl, h = '    -1' + (' ' * 74 if s.pad_delim else ''), '%6d' % d['type']
            b = s.eol.join([dl, h.ljust(80) if s.pad_head else h] + i['lines'] + [dl, '']).encode()
            fl.append(None)
        elif 's' in i:
            if i.get('own'):
                b = T[58].encode(d, Style(**i['s']), i['fd'], delim_own_line=True)
                faults += 1
            else:
                b = encode(i)
            fl.append(enc_fields(i))
        else:
            q = ctx.path()
            write(P.UFF(q), [i])
            b = get(q)
            fl.append(fields(i))
        ty.append(d['type'])
        if d['type'] == 58 and d.get('binary'):
            body = b[:b.rindex(b'    -1')]
            if i.get('own'):
                e = Style(**i['s']).eol.encode()
                body = body[:-len(e)]
                blank = blank or risky(body)
                bad = body[-1:] in (b'\r', b'\n') and e == b'\n' and body[-1:] == b'\r'
            else:
                bad = risky(body)
            tails.append(body[body.index(b'\n') + 1:] + b'    -1')
            if bad and not c.get('force'):
                ctx.trivial = True
                ctx.label('skipped: known finding K7')
                return
        parts.append(b)
    if not c.get('force') and any(b[:b.rindex(b'    -1')].splitlines()[-1] == b'' for b, i in zip(parts, c['its']) if not i['d'].get('binary')):
        ctx.trivial = True
        ctx.label('skipped: known finding K8')
        return
    data = b''.join(parts)
    if not c['eol']:
        data = data.rstrip(b'\r\n ')
    src = ctx.path(c['name'])
    os.makedirs(os.path.dirname(src), exist_ok=True)
    put(src, data)
    if c['to'] is None:
        base, ext = os.path.splitext(src)
        dst = f'{base}_fixed{ext}'
        lib('fix_58b', P.fix_58b, src)
    else:
        dst = src if c['to'] == 'same' else ctx.path(c['to'])
        lib('fix_58b', P.fix_58b, src, dst) if len(ty) % 2 else lib('fix_58b', P.fix_58b, src, fixed_filename=dst)
    require(get(dst) is not None, f'no file {os.path.basename(dst)}')
    if dst != src:
        require(get(src) == data, 'the source file was changed')

    def look(p, w, more=()):
        u = lib(f'{w}: UFF', P.UFF, p)
        exp = ty + [m['d']['type'] for m in more]
        t = [int(v) for v in u.get_set_types()]
        require(t == exp, f'{w}: types {t}, expected {exp}')
        g = aslist(read(u, what=w), w, len(exp))
        for k, (a, f) in enumerate(zip(g, fl + [fields(m) for m in more])):
            if f is None:
                require(set(a) == {'type'}, f'{w}: unsupported set {k} read as {str(a)[:80]}')
            else:
                check_fields(a, f, f'{w}: set {k} (type {exp[k]})')
        return u

    look(dst, 'repaired file')
    out, k = get(dst), 0
    for t in tails:                                        # the data of a 58b set end where its delimiter begins
        k = out.find(t, k)
        require(k >= 0, 'repaired file: the delimiter of a 58b set does not follow its data')
    blank = blank or any(b[:b.rindex(b'    -1')].splitlines()[-1].strip() == b'' for b, i in zip(parts, c['its']) if not i['d'].get('binary'))
    if not blank:                                          # known findings K7, K8
        again = ctx.path('again.out')
        lib('fix_58b (second time)', P.fix_58b, dst, again)
        look(again, 'repaired twice')
    m = c['more']
    lib('add to the repaired file', P.UFF(dst).write_sets, m['d'], 'add', force_double=m['fd'])
    look(dst, 'repaired file with a set added', [m])
    must_raise('fix_58b of a missing file', P.fix_58b, ctx.path('missing.uff'))
    ctx.label(f'{faults} faults', 'default name' if c['to'] is None else 'given name')
    nontriv(ctx, c['its'])
    ctx.trivial = not any(i['d'].get('binary') for i in c['its'])

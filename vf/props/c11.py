"""C11: truncation or damage of one set does not cost the other sets."""
from hypothesis import strategies as st
from ..sets import O, TYPES
from ..items import item, twins, enc_item, encode, enc_fields, fields, write, put, get, nontriv
from ..common import Violation, check_fields, lib, require, same

LEVEL = 'fault_enumeration'
RULE = ('A file of 1..5 sets (written by pyuff or by the independent writer) is cut at up to 14 drawn byte positions (every position near a '
        'delimiter and anywhere inside sets), or bytes inside one to three sets are replaced, inserted, removed, duplicated or swapped, or lines are doubled, removed or left blank, without making or removing a '
        'delimiter; after each fault all complete/undamaged sets have to be indexed at their place and read unchanged; reading the damaged set may '
        'raise, but has to end and leave the file alone. Non-trivial: at least one intact set besides the fault.')
QUICK, THOROUGH = 8000, 96000
BATCH = 200


@st.composite
def _case(draw):
    o = O(big=draw(st.integers(0, 5)) == 0, huge=300, mid=True, nmax58=12)
    n = draw(st.integers(1, 5))
    own = draw(st.booleans())
    types = draw(st.sampled_from([TYPES, TYPES, [58, 58, 82, 2411], [55, 2414, 2412, 2429, 2467, 58]]))
    c = {'its': [item(draw, o, types) if own else enc_item(draw, o, types) for _ in range(n)], 'kind': draw(st.sampled_from(['cut', 'damage']))}
    twins(draw, c['its'])
    if c['kind'] == 'cut':
        c['cuts'] = draw(st.lists(st.one_of(st.tuples(st.integers(0, n), st.integers(-100, 100)), st.tuples(st.just(-1), st.integers(0, 10 ** 6))),
                                  min_size=6, max_size=14))
    else:
        wh = draw(st.lists(st.integers(0, n - 1), min_size=1, max_size=draw(st.sampled_from([1, 1, 2, 3])), unique=True))
        c['damage'] = [{'which': w, 'edits': draw(st.lists(st.tuples(
            st.sampled_from(['set', 'set', 'set', 'digit', 'digit', 'del', 'ins', 'swap', 'dupline', 'delline', 'insline', 'blank', 'zero', 'neg', 'type', 'notype']),
            st.one_of(st.integers(0, 10 ** 6), st.integers(0, 400)), st.integers(0, 255)), min_size=1, max_size=4))} for w in sorted(wh)]
    return c


def strategy(tier):
    return _case()


def delims(data):
    """Offsets at which the library may see a delimiter."""
    r, i = [], -1
    while True:
        i = data.find(b'    -1', i + 1)
        if i < 0:
            return r
        if i + 6 == len(data) or data[i + 6] in (10, 13) or data[i + 6:i + 80] == b' ' * 74 or not data[i + 6:].strip(b' '):
            r.append(i)


def build(c, ctx):
    """-> file bytes, [(start of the set, start of its closing delimiter, end)], fields"""
    parts, fl = [], []
    for i in c['its']:
        if 's' in i:
            parts.append(encode(i))
            fl.append(enc_fields(i))
        else:
            q = ctx.path('one.uff')
            write(ctx.pyuff.UFF(q), [i], 'overwrite')
            parts.append(get(q))
            fl.append(fields(i))
    data = b''.join(parts)
    spans, a = [], 0
    for q in parts:
        end = a + len(q)
        spans.append((a, data.rindex(b'    -1', a, end), end))
        a = end
    return data, spans, fl


def run(c, ctx):
    UFF = ctx.pyuff.UFF
    p = ctx.path('f.uff')
    data, spans, fl = build(c, ctx)
    types = [i['d']['type'] for i in c['its']]
    n = len(types)
    if len(delims(data)) != 2 * n:                   # known findings K1-K3 are excluded by the generators
        ctx.trivial = True
        ctx.label('skipped: ambiguous delimiter')
        return

    def intact(u, idx, w):
        for k in idx:
            check_fields(lib(f'{w}: read_sets({k})', u.read_sets, k), fl[k], f'{w}: set {k} (type {types[k]})')

    if c['kind'] == 'cut':
        seen = set()
        for a, b in c['cuts']:
            cut = b % (len(data) + 1) if a < 0 else (spans[a][0] if a < n else len(data)) + b
            cut = max(0, min(len(data), cut))
            if cut in seen:
                continue
            seen.add(cut)
            put(p, data[:cut])
            w = f'cut at {cut} of {len(data)}'
            u = lib(f'{w}: opening', UFF, p)
            require(u.get_status() is True or u.get_status() == 1, f'{w}: status {u.get_status()}')
            # a padded delimiter is complete with its 80th column; cut within the
            # padding it may be taken for a delimiter or not
            k = sum(1 for s in spans if s[1] + (80 if data[s[1] + 6:s[1] + 80] == b' ' * 74 else 6) <= cut)
            # an unfinished set may end in what looks like its delimiter
            extra = k < n and len(delims(data[:cut])) >= 2 * k + 2
            m = u.get_n_sets()
            require(m == k or (extra and m == k + 1), f'{w}: {m} sets indexed, {k} are complete')
            require([int(v) for v in u.get_set_types()][:k] == types[:k], f'{w}: types {list(u.get_set_types())}, complete are {types[:k]}')
            intact(u, range(k), w)
            if m > k:
                try:
                    u.read_sets(k)
                except Exception:                           # noqa: BLE001
                    pass
            require(get(p) == data[:cut], f'{w}: reading changed the file')
            ctx.label('cut inside a set' if not any(cut in s for s in spans) else 'cut at a border')
        ctx.trivial = n < 2
        nontriv(ctx, c['its'])
        return
    new, exp, at = b'', [], 0
    for g in c['damage']:
        a, b, _ = spans[g['which']]
        head = data.index(b'\n', a) + 1                    # the damage stays behind the opening delimiter line
        new += data[at:head] + damaged(data[head:b], g['edits'])
        g['shift'] = len(new) - b
        at = b
    new += data[at:]
    for k, s in enumerate(spans):
        d = [0] + [g['shift'] for g in c['damage'] if g['which'] < k] + [g['shift'] for g in c['damage'] if g['which'] == k]
        exp += [s[0] + ([0] + [g['shift'] for g in c['damage'] if g['which'] < k])[-1], s[1] + d[-1]]
    if delims(new) != exp or new == data:
        ctx.trivial = True
        ctx.label('skipped: damage made or removed a delimiter')
        return
    put(p, new)
    wh = [g['which'] for g in c['damage']]
    w = f'damage in {", ".join(f"set {k} (type {types[k]})" for k in wh)}'
    u = lib(f'{w}: opening', UFF, p)
    require(u.get_n_sets() == n, f'{w}: {u.get_n_sets()} sets indexed of {n}')
    t = [int(v) for v in u.get_set_types()]
    others = [k for k in range(n) if k not in wh]
    require([t[k] for k in others] == [types[k] for k in others], f'{w}: types {t} of {types}')
    intact(u, others, w)
    for k in wh:
        try:
            u.read_sets(k)
            ctx.label('damaged set read')
        except MemoryError:
            ctx.label('damaged set raised')
        except Exception:                                   # noqa: BLE001
            ctx.label('damaged set raised')
    intact(u, others, w + ', after reading it')
    require(get(p) == new, f'{w}: reading changed the file')
    ctx.label(f'{len(wh)} sets damaged')
    ctx.trivial = n < 2
    nontriv(ctx, c['its'])


def damaged(part, edits):
    body = bytearray(part)
    for op, pos, val in edits:
        if not body:
            break
        q = pos % len(body)
        if op == 'set':
            body[q] = val
        elif op in ('digit', 'neg', 'blank', 'zero'):
            dg = [i for i in range(len(body)) if 48 <= body[i] <= 57]
            if dg:
                i = dg[pos % len(dg)]
                body[i] = {'digit': 48 + val % 10, 'neg': 45, 'blank': 32, 'zero': 48}[op]
        elif op == 'del':
            del body[q:q + 1 + val % 9]
        elif op == 'ins':
            body[q:q] = bytes([val]) * (1 + val % 3)
        elif op == 'swap':
            r = (pos // 7 + val) % len(body)
            body[q], body[r] = body[r], body[q]
        elif op == 'notype':
            body[0:6] = [b'    xx', b'      ', b'    -5', b'  5.82', b'\xff' * 6, b''][val % 6]
        elif op == 'type':
            body[0:6] = b'%6d' % [58, 15, 18, 55, 82, 151, 164, 1858, 2400, 2411, 2412, 2414, 2420, 2429, 2467, 9999][val % 16]
        else:
            ls = bytes(body).split(b'\n')
            i = pos % len(ls)
            if op == 'dupline':
                ls.insert(i, ls[i])
            elif op == 'insline':
                ls[i:i] = [b' ' * (80 * (val % 3 == 2))] * (1 + val % 2)
            elif len(ls) > 1 and i < len(ls) - 1:
                del ls[i]
            body = bytearray(b'\n'.join(ls))
    return bytes(body)

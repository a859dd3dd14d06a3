"""C25: a process that dies in the middle of a call costs no set written before."""
import os
import sys
from hypothesis import strategies as st
from .. import env
from ..breakers import draw_breaker, breaks
from ..sets import O, TYPES, Style
from ..items import item, items, enc_item, encode, enc_fields, fields, read, aslist, put, get
from ..foreign import line
from ..common import Violation, check_fields, clone, lib, require

LEVEL = 'fault_enumeration'
RULE = ('A file of 0..3 own or foreign sets (with or without last line end, at times with text behind) is added to, read, queried, overwritten, repaired to another name, or refuses an unwritable set, in 1..3 calls. '
        'At every line executed in the library and behind every file operation the file is looked at from outside: just this would be left if the process were killed there. Where sets are added, what was there has to be '
        'there still, byte for byte; where a file is read, queried or repaired to another name, it has to be unchanged; of the states seen, up to 12 drawn ones are opened: sets that were complete are all there with their content, '
        'and nothing that is not complete counts as a set. Non-trivial: at least two different states seen during the calls.')
QUICK, THOROUGH = 6400, 80000
BATCH = 200
ASSUMPTIONS = ['the death of the process is meant, not of the machine: what the system has been handed is kept']
OPS = ['add', 'add', 'add', 'add', 'fail', 'overwrite', 'read', 'one', 'header', 'query', 'open', 'fix']
CALLS = {'write', 'open', 'truncate', 'ftruncate', 'flush', 'close', 'replace', 'rename', 'remove', 'unlink', 'writelines', 'seek', 'sendfile', 'fsync', 'copy_file_range', 'tofile', 'link', 'symlink', 'pwrite'}


@st.composite
def _case(draw):
    o = O(big=False, huge=100, mid=True, nmax58=draw(st.sampled_from([9, 9, 60])), uni=draw(st.integers(0, 3)) == 0)
    types = draw(st.sampled_from([TYPES, TYPES, [58], [58, draw(st.sampled_from(TYPES))]]))
    pre = []
    own = draw(st.booleans())
    for _ in range(draw(st.sampled_from([0, 1, 1, 2, 3]))):
        pre.append(item(draw, o, types) if own else enc_item(draw, o, types, Style.draw(draw)))
    calls = []
    for _ in range(draw(st.integers(1, 3))):
        k = draw(st.sampled_from(OPS))
        q = {'op': k, 'new': draw(st.booleans())}
        if k in ('add', 'overwrite', 'fail'):
            q['its'] = items(draw, 1, 3, o, types)
        if k == 'fail':
            q['at'] = draw(st.integers(0, len(q['its']) - 1))
            q['brk'] = draw_breaker(draw, q['its'][q['at']])
        calls.append(q)
    return {'pre': pre, 'eol': draw(st.booleans()), 'text': draw(st.one_of(st.none(), st.none(), line(), st.sampled_from(['\n', '\n\n', '\r\n\r\n', '  \n', ' ' * 80 + '\n', '\n   ', 'x\n\n']))), 'calls': calls,
            'pick': draw(st.lists(st.integers(0, 9999), min_size=12, max_size=12))}


def strategy(tier):
    return _case()


class Watch:
    """The states the file goes through while a call runs."""
    prefix = os.path.join(os.path.realpath(env.REPO), 'pyuff') + os.sep
    known = {}

    def __init__(self, path):
        self.path, self.states = path, []

    def look(self):
        b = get(self.path) if os.path.exists(self.path) else None
        if not self.states or self.states[-1] != b:
            self.states.append(b)

    def inside(self, code):
        r = self.known.get(code)
        if r is None:
            r = self.known[code] = os.path.realpath(code.co_filename).startswith(self.prefix)
        return r

    def line(self, frame, event, arg):
        self.look()
        return self.line

    def call(self, frame, event, arg):
        return self.line if self.inside(frame.f_code) else None

    def builtin(self, frame, event, arg):
        if event in ('c_return', 'c_exception') and getattr(arg, '__name__', '') in CALLS:
            self.look()

    def __enter__(self):
        self.look()
        sys.setprofile(self.builtin)
        sys.settrace(self.call)
        return self

    def __exit__(self, *_):
        sys.settrace(None)
        sys.setprofile(None)
        self.look()


def run(c, ctx):
    UFF = ctx.pyuff.UFF
    p, q = ctx.path('f.uff'), ctx.path('seen.uff')
    model = []
    for it in c['pre']:
        if 's' in it:
            put(p, (get(p) if os.path.exists(p) else b'') + encode(it))
            model.append((it['d']['type'], enc_fields(it)))
        else:
            lib('UFF.write_sets', UFF(p).write_sets, [clone(it['d'])], force_double=it['fd'])
            model.append((it['d']['type'], fields(it)))
    if model and not c['eol']:
        put(p, get(p).rstrip(b'\r\n'))
    if c['text'] is not None and c['eol']:
        put(p, (get(p) if model else b'') + c['text'].encode())

    def holds(b, accept, w):
        """The state b holds one of the accepted lists of sets and no more."""
        put(q, b)
        v = lib(f'{w}: UFF', UFF, q)
        ty = [int(t) for t in v.get_set_types()]
        ok = [a for a in accept if [t for t, _ in a] == ty]
        require(ok, f'{w}: sets {ty} in the file, expected {[[t for t, _ in a] for a in accept]}')
        if not ty:
            return
        g = aslist(read(v, what=f'{w}: read_sets'), w, len(ty))
        err = None
        for a in ok:
            try:
                for k, (x, (t, f)) in enumerate(zip(g, a)):
                    check_fields(x, f, f'{w}: set {k} (type {t})')
                return
            except Violation as e:
                err = err or e
        raise err

    u = lib('UFF', UFF, p)
    seen = 0
    for j, call in enumerate(c['calls']):
        k = call['op']
        w = f'call {j} ({k})'
        if call['new']:
            u = lib('UFF', UFF, p)
        there = os.path.exists(p)
        before = get(p) if there else None
        new = [(i['d']['type'], fields(i)) for i in call.get('its', [])]
        ds = [clone(i['d']) for i in call.get('its', [])]
        if k == 'fail':
            ds[call['at']] = breaks(call['its'][call['at']], call['brk'])
            new = new[:call['at']]
        err = None
        with Watch(p) as s:
            try:
                if k in ('add', 'fail', 'overwrite'):
                    u.write_sets(ds, 'overwrite' if k == 'overwrite' else 'add', force_double=call['its'][0]['fd'])
                elif k == 'open':
                    u = UFF(p)
                elif k == 'query':
                    u.refresh()
                    u.get_set_types()
                elif k == 'fix':
                    if there:
                        ctx.pyuff.fix_58b(p, ctx.path('fixed.uff'))
                elif there and model:
                    if k == 'one':
                        u.read_sets(len(model) - 1)
                    else:
                        u.read_sets(header_only=k == 'header')
            except Exception as e:                          # noqa: BLE001
                err = e
        require((err is not None) == (k == 'fail'), f'{w}: {type(err).__name__}: {err}' if err else f'{w}: an unwritable set was written')
        seen += len(s.states) - 1
        if k in ('add', 'fail'):
            for b in s.states:
                require((b or b'').startswith(before or b'') and (b is not None or not there), f'{w}: for a moment, what was in the file is not there ({len(before or b"")} bytes before, then {"no file" if b is None else len(b)})')
            accept = [model + new[:i] for i in range(len(new) + 1)]
            model = model + new
        elif k == 'overwrite':
            accept = [model] + [new[:i] for i in range(len(new) + 1)]
            model = new
        else:
            require(all(b == before for b in s.states), f'{w}: the file changes for a moment')
            accept = [model]
        states = [b for b in s.states if b is not None]
        if k in ('add', 'fail', 'overwrite') and states:
            for i in sorted({x % len(states) for x in c['pick'][:4 * (3 // len(c['calls']))]} | {len(states) - 1}):
                holds(states[i], accept, f'{w}: a file as left when the process dies ({len(states[i])} bytes)')
            require([t for t, _ in model] == [int(t) for t in u.get_set_types()], f'{w}: types {list(u.get_set_types())}')
            holds(get(p), [model], f'{w}: at its end')
    ctx.trivial = seen < 2

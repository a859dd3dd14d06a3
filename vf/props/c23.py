"""C23: separate objects do not disturb each other, whatever the order of their steps."""
import os
import sys
import threading
from hypothesis import strategies as st
from .. import env
from ..breakers import draw_breaker, breaks
from ..sets import O, TYPES
from ..items import item, items, enc_item, encode, enc_fields, fields, check_sets, aslist, put, get, nontriv
from ..common import Violation, check_fields, clone, require

RULE = ('2..3 threads with objects of their own each make 1..4 calls (writes of all types and forms to a file of their own, added, overwritten or refused, reads of it, reads of a file all of them share, header-only reads). '
        'One thread runs at a time; after a drawn number of lines executed inside the library the next drawn thread goes on (from every line to every few hundred lines), so each case is one exact interleaving, which '
        'replays. Each thread has to get what it gets when it runs alone: intended content, refusals, and the same bytes. Non-trivial: at least two switches inside calls.')
QUICK, THOROUGH = 4800, 64000
BATCH = 200
LEVEL = 'exploration'


@st.composite
def _case(draw):
    o = O(big=False, huge=300, mid=True, nmax58=9, uni=draw(st.integers(0, 3)) == 0)
    types = draw(st.sampled_from([TYPES, [58], [58], [draw(st.sampled_from(TYPES))], [draw(st.sampled_from(TYPES))], [2412, 2414, 55, 82, 58]]))
    c = {'shared': [enc_item(draw, o, types) for _ in range(draw(st.integers(1, 2)))], 'threads': []}
    for _ in range(draw(st.sampled_from([2, 2, 3]))):
        ops = []
        for _ in range(draw(st.integers(1, 4))):
            k = draw(st.sampled_from(['add', 'add', 'add', 'over', 'read', 'shared', 'shared', 'header', 'fail']))
            if k in ('add', 'over'):
                ops.append((k, items(draw, 1, 2, o, types)))
            elif k == 'fail':
                it = item(draw, o, types)
                ops.append((k, it, draw_breaker(draw, it)))
            elif k == 'shared':
                ops.append((k, draw(st.integers(-1, len(c['shared']) - 1))))
            else:
                ops.append((k,))
        c['threads'].append(ops)
    top = draw(st.sampled_from([1, 2, 5, 20, 60, 200]))
    c['switch'] = draw(st.lists(st.tuples(st.integers(1, top), st.integers(0, 2)), min_size=2, max_size=40))
    return c


def strategy(tier):
    return _case()


class Stop(BaseException):
    pass


class Schedule:
    """Runs the functions in threads, one at a time, handing over after drawn numbers of lines in the library."""

    def __init__(self, fns, switch):
        self.fns, self.switch = fns, switch
        self.go = [threading.Semaphore(0) for _ in fns]
        self.live = list(range(len(fns)))
        self.end = threading.Semaphore(0)
        self.left, self.k, self.switches, self.abort = switch[0][0], 0, 0, False
        self.errors = [None] * len(fns)
        self.prefix = os.path.join(os.path.realpath(env.REPO), 'pyuff') + os.sep
        self.known = {}

    def inside(self, code):
        r = self.known.get(code)
        if r is None:
            r = self.known[code] = os.path.realpath(code.co_filename).startswith(self.prefix)
        return r

    def tracer(self, i):
        def line(frame, event, arg):
            if event == 'line':
                if self.abort:
                    raise Stop()
                self.left -= 1
                if self.left <= 0:
                    self.hand_over(i)
            return line

        def call(frame, event, arg):
            return line if self.inside(frame.f_code) else None
        return call

    def hand_over(self, i):
        self.k = (self.k + 1) % len(self.switch)
        self.left, to = self.switch[self.k]
        others = [t for t in self.live if t != i]
        if not others:
            return
        self.switches += 1
        self.go[others[to % len(others)]].release()
        self.go[i].acquire()
        if self.abort:
            raise Stop()

    def body(self, i):
        self.go[i].acquire()
        try:
            if not self.abort:
                sys.settrace(self.tracer(i))
                try:
                    self.fns[i]()
                finally:
                    sys.settrace(None)
        except Stop:
            pass
        except BaseException as e:                          # noqa: BLE001
            self.errors[i] = e
        self.live.remove(i)
        if self.live and not self.abort:
            self.go[self.live[0]].release()
        else:
            self.end.release()

    def run(self):
        ts = [threading.Thread(target=self.body, args=(i,), daemon=True) for i in range(len(self.fns))]
        for t in ts:
            t.start()
        try:
            self.go[self.live[0]].release()
            self.end.acquire()
        finally:
            self.abort = True
            for g in self.go:
                g.release()
        for t in ts:
            t.join(10)
        for e in self.errors:
            if e is not None:
                raise e


def run(c, ctx):
    UFF = ctx.pyuff.UFF
    shared = ctx.path('shared.uff')
    put(shared, b''.join(encode(i) for i in c['shared']))
    want = [enc_fields(i) for i in c['shared']]

    def program(i, ops, name):
        def f():
            p = ctx.path(name)
            u = UFF(p)
            s = None
            model = []
            for j, op in enumerate(ops):
                w = f'thread {i}, call {j} ({op[0]})'
                if op[0] in ('add', 'over'):
                    ds = [clone(it['d']) for it in op[1]]
                    call(w, u.write_sets, ds, 'add' if op[0] == 'add' else 'overwrite', force_double=op[1][0]['fd'])
                    if op[0] == 'over':
                        model.clear()
                    model += op[1]
                elif op[0] == 'fail':
                    try:
                        u.write_sets(breaks(op[1], op[2]), 'add', force_double=op[1]['fd'])
                    except Exception:                       # noqa: BLE001
                        continue
                    raise Violation(f'{w}: an unwritable set was written')
                elif op[0] in ('read', 'header'):
                    if model:
                        g = call(w, u.read_sets, header_only=op[0] == 'header')
                        if op[0] == 'read':
                            check_sets(g, model, w)
                        else:
                            g = aslist(g, w, len(model))
                            for q, it in zip(g, model):
                                hdr = {'header_only': True} if it['d']['type'] == 58 else {}
                                check_fields(q, fields(it, **hdr), w)
                else:
                    s = s or call(w, UFF, shared)
                    g = call(w, s.read_sets, None if op[1] < 0 else op[1])
                    idx = range(len(want)) if op[1] < 0 else [op[1]]
                    for q, k in zip(aslist(g, w, len(idx)), idx):
                        check_fields(q, want[k], f'{w}: shared set {k}')
            if model:
                require([int(v) for v in u.get_set_types()] == [it['d']['type'] for it in model], f'thread {i}: types {list(u.get_set_types())}')
        return f

    n = len(c['threads'])
    s = Schedule([program(i, ops, f'own{i}.uff') for i, ops in enumerate(c['threads'])], c['switch'])
    s.run()
    for i, ops in enumerate(c['threads']):
        model = []
        for op in ops:
            if op[0] in ('add', 'over'):
                model = (model if op[0] == 'add' else []) + op[1]
        p = ctx.path(f'own{i}.uff')
        if not model:
            continue
        check_sets(UFF(p).read_sets(), model, f'file of thread {i} at the end')
        if not any(it['d']['type'] == 151 for it in model):
            q = ctx.path('alone.uff')
            if os.path.exists(q):
                os.unlink(q)
            for op in ops:
                if op[0] in ('add', 'over'):
                    UFF(q).write_sets([clone(it['d']) for it in op[1]], 'add' if op[0] == 'add' else 'overwrite', force_double=op[1][0]['fd'])
            require(get(p) == get(q), f'file of thread {i}: other bytes than when it runs alone')
        nontriv(ctx, model)
    ctx.trivial = s.switches < 2
    ctx.label(f'{n} threads', 'switches: ' + ('0' if not s.switches else '1-9' if s.switches < 10 else '10-99' if s.switches < 100 else '100 and more'))


def call(what, fn, *a, **k):
    try:
        return fn(*a, **k)
    except (Violation, Stop):
        raise
    except Exception as e:                                  # noqa: BLE001
        raise Violation(f'{what} raised {type(e).__name__}: {e}') from e

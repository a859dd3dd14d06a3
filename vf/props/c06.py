"""C06: group sets survive write-then-read."""
import importlib

import numpy as np
import pyuff
from hypothesis import strategies as st
from . import _rt
from ..common import native, lib, clone

TYPES = [2429, 2467]
RULE = ('1..3 group sets (2429, 2467) of 0..4 groups with 0..2500 entities each and any subset of the active-set numbers, built by hand or with '
        'prepare_group and prepare_2429/2467, are written and read back. Non-trivial: at least one group.')
QUICK, THOROUGH = 20000, 200000


def strategy(tier):
    return st.tuples(_rt.case(TYPES), st.sampled_from(['dict', 'prepare', 'prepare-full'])).map(lambda t: {**t[0], 'how': t[1]})


def prepared(it, full):
    d = native(clone(it['d']))
    t = d['type']
    m = importlib.import_module(f'pyuff.datasets.dataset_{t}')
    gs = []
    for g in d['groups']:
        kw = {k: v if k.startswith('active') or k.startswith('group') or len(v) else np.array([], int) for k, v in g.items()
              if k != 'number_of_entities_in_group'}
        gs.append(lib('prepare_group', m.prepare_group, return_full_dict=full, **kw))
    return {'d': lib(f'prepare_{t}', getattr(pyuff, f'prepare_{t}'), groups=gs, return_full_dict=full), 'fd': it['fd']}


def run(c, ctx):
    how = c['how']
    its = c['its']
    prep = None
    if how != 'dict':
        prep = lambda i: prepared(i, how == 'prepare-full')
    _rt.run(c, ctx, prep)
    ctx.label(how)
    gs = its[0]['d']['groups']
    ctx.trivial = not gs
    ctx.label(f'{min(len(gs), 3)} groups')


"""Ways to make one set unwritable, each reviewed on the unchanged tree: a
required field missing, a value that no number can be made of in a numeric
field, a list shorter than its fellows, an unsupported function or analysis
type, no known precision."""
import numpy as np
from hypothesis import strategies as st
from .sets import T, ACTIVE, BEAMS
from .common import clone

VAL = ['none', 'str', 'obj']
BAD = {'none': lambda: None, 'str': lambda: 'abc', 'obj': object, 'elnone': lambda: None, 'elstr': lambda: 'abc'}

_t58 = T[58]
NUM = {                       # numeric scalars
    164: ('units_code', 'temp_mode') + T[164].reals,
    1858: T[1858].r1 + T[1858].r2 + T[1858].r3 + T[1858].r4,
    2400: ('model_uid', 'entity_type', 'entity_subtype', 'version_number', 'idm_version_id', 'idm_item_id', 'primary_parent_uid', 'optimization_switches'),
    82: ('trace_num', 'color'),
    2420: ('Part_UID',),
    55: ('analysis_type', 'data_ch', 'spec_data_type', 'load_case', 'model_type', 'eig', 'freq', 'freq_step_n', 'mode_n', 'modal_a', 'modal_b', 'modal_m',
         'modal_damp_vis', 'modal_damp_his'),
    2414: ('analysis_dataset_label', 'dataset_location') + T[2414].r9 + T[2414].i5 + T[2414].i5b + T[2414].f5 + T[2414].f5b
          + tuple(k for q in T[2414].g.values() for k in q),
    58: ('func_type', 'rsp_node', 'rsp_dir', 'ref_node', 'ref_dir', 'orddenom_spec_data_type')
        + tuple(k for k in _t58.optional if k not in _t58.textkeys and k not in ('binary', 'abscissa_spacing')),
}
MISSING = {151: T[151].required, 164: T[164].required, 1858: T[1858].required, 82: T[82].required, 2420: T[2420].required, 2411: T[2411].required,
           15: T[15].required, 18: T[18].required, 55: T[55].required + ('freq', 'freq_step_n', 'mode_n', 'eig'),
           2414: T[2414].required + ('node_nums', 'element_nums', 'data_at_node', 'data_at_element', 'data_at_nodes_on_element', 'IEXP', 'number_of_nodes',
                                     'number_of_values_per_node', 'x', 'y', 'z') + T[2414].i5 + T[2414].i5b + T[2414].f5 + T[2414].f5b,
           58: _t58.required, 2429: ('groups',), 2467: ('groups',)}
ARR = {15: ('node_nums', 'def_cs', 'disp_cs', 'color', 'x', 'y', 'z'), 18: ('cs_num', 'cs_type', 'ref_cs_num', 'color', 'method', 'ref_o', 'x_point', 'xz_point'),
       2411: T[2411].required, 82: ('nodes',), 2420: ('CS_sys_labels', 'CS_types', 'CS_colors', 'CS_matrices'),
       55: ('node_nums', 'r1', 'r2', 'r3', 'r4', 'r5', 'r6'),
       2414: ('node_nums', 'element_nums', 'data_at_node', 'data_at_element', 'data_at_nodes_on_element', 'IEXP', 'number_of_nodes',
              'number_of_values_per_node', 'x', 'y', 'z')}
NOSHORT = {15: ('node_nums',), 18: ('cs_num',), 2411: ('node_nums',), 55: ('node_nums',), 82: ('nodes',)}
FIRST = {15: 'node_nums', 18: 'cs_num', 2411: 'node_nums', 2420: 'CS_sys_labels', 55: 'node_nums', 82: 'nodes'}


def options(it):
    """All breakers that apply to the item: (path, what)."""
    d = it['d']
    t = d['type']
    r = [((k,), w) for k in NUM.get(t, ()) if k in d for w in VAL]
    n = len(d[FIRST[t]]) if t in FIRST else None
    if t == 2414:
        n = len(d['node_nums'] if 'node_nums' in d else d['element_nums'])
    for k in MISSING.get(t, ()):
        if k in d and (n is None or n >= 1 or k not in ARR.get(t, ())):
            r.append(((k,), 'missing'))
    for k in ARR.get(t, ()):
        if k in d and n:
            r += [((k,), w) for w in VAL + ['elnone', 'elstr']]
            if n >= 2 and k not in NOSHORT.get(t, ()):
                r.append(((k,), 'short'))
    if t in (18, 2420) and n and n >= 2:
        k = 'cs_name' if t == 18 else 'CS_names'
        r += [((k,), w) for w in ('none', 'short') if k in d]
    if t == 2400:
        r += [(('status_mask',), w) for w in VAL + ['elnone', 'elstr'] if 'status_mask' in d]
    if t in (2429, 2467):
        r += [(('groups',), w) for w in VAL]
        for i, g in enumerate(d['groups']):
            m = len(g['entity_type_code'])
            r += [(('groups', i, k), w) for k in ('group_number',) + ACTIVE if k in g for w in VAL]
            r += [(('groups', i, k), 'missing') for k in ('group_number', 'group_name')]
            if m:
                for k in T[t].ent:
                    r += [(('groups', i, k), w) for w in VAL + ['elnone', 'elstr', 'missing']]
                    if m >= 2 and k != 'entity_type_code':
                        r.append((('groups', i, k), 'short'))
    if t == 2412:
        for k in d:
            if type(k) is int:
                for i, e in enumerate(d[k]):
                    for q in T[t].base + (T[t].beam if k in BEAMS else ()):
                        r += [((k, i, q), w) for w in VAL + ['missing']]
                    r += [((k, i, 'nodes_nums'), w) for w in VAL + ['elnone', 'elstr', 'missing']]
    if t == 58:
        r += [((k,), w) for k in ('x', 'data') for w in VAL]
        r += [(('data',), 'elstr'), (('func_type',), 'badfunc')]
        if not it['fd']:
            r += [(('ord_data_type',), 'missing'), (('ord_data_type',), 'none')]
    if t == 55:
        r.append((('analysis_type',), 'badana'))
    return r + [(('type',), 'missing')]


def draw_breaker(draw, it):
    o = options(it)
    # by kind first, so that rare kinds get their share
    kinds = sorted({w for _, w in o})
    w = draw(st.sampled_from(kinds))
    o = [x for x in o if x[1] == w]
    path, w = draw(st.sampled_from(o))
    pos = draw(st.sampled_from([-1, -1, 0, 1, 2])) if w.startswith('el') else 0
    v = draw(st.sampled_from([5, 7, 8, 10, 27, -1, 58])) if w == 'badfunc' else draw(st.sampled_from([0, 1, 4, 6, 9, -2])) if w == 'badana' else 0
    return {'path': list(path), 'what': w, 'pos': pos, 'v': v}


def breaks(it, b):
    """The broken dictionary."""
    d = clone(it['d'])
    o = d
    for p in b['path'][:-1]:
        o = o[p]
    k, w = b['path'][-1], b['what']
    if w == 'missing':
        del o[k]
    elif w == 'short':
        o[k] = list(o[k])[:-1]
    elif w.startswith('el'):
        v = list(o[k])
        v[b['pos'] if abs(b['pos']) < len(v) else -1] = BAD[w]()
        o[k] = v
    elif w in ('badfunc', 'badana'):
        o[k] = b['v']
    else:
        o[k] = BAD[w]()
    return d

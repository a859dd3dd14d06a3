"""Writes known/*.json: the inputs of the known findings (see known_findings.txt)."""
import json
import os
import sys
import numpy as np
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from vf import jsonx                                         # noqa: E402


def rt(*ds, fd=True):
    return {'its': [{'d': d, 'fd': True} for d in ds], 'pos': 'each', 'same': False, 'fd': fd}


def put(name, case):
    with open(os.path.join(HERE, 'known', name + '.json'), 'w') as fh:
        json.dump({'case': jsonx.enc(case)}, fh, indent=1)


def style(**k):
    return {**dict(eol='\n', pad_delim=False, pad_head=True, pad_text=True, e='E', d='D', zfill=False, bo=1, final_eol=True, dig58=11), **k}


def d58(**k):
    return {'type': 58, 'func_type': 1, 'rsp_node': 1, 'rsp_dir': 1, 'ref_node': 1, 'ref_dir': 1, 'orddenom_spec_data_type': 0, 'binary': 1,
            'abscissa_spacing': 1, 'ord_data_type': 4, 'x': np.arange(3.0), 'data': np.array([1.0, 2.0, 3.0]), **k}


# K1: an integer -1 that ends a record
put('K1_82', rt({'type': 82, 'trace_num': 1, 'nodes': np.array([5, 6, -1])}))
put('K1_2400', rt({'type': 2400, 'optimization_switches': -1}))
e = {k: 1 for k in ('analysis_dataset_label', 'dataset_location')}
d = {'type': 2414, 'analysis_dataset_label': -1, 'analysis_dataset_name': 'a', 'dataset_location': 1, **{f'id{i}': 'NONE' for i in range(1, 6)}, 'model_type': 1,
     'analysis_type': 0, 'data_characteristic': 2, 'result_type': 8, 'data_type': 2, 'number_of_data_values_for_the_data_component': 3,
     'node_nums': np.array([1]), 'data_at_node': [np.array([1.0, 2.0, 3.0])]}
put('K1_2414', rt(d))
put('K1_2429', {**rt({'type': 2429, 'groups': [{'group_number': 1, 'group_name': 'g', 'entity_type_code': [8], 'entity_tag': [-1]}]}), 'how': 'dict'})

# K2: the bytes of a binary signal hold a delimiter
y = np.array([1.0, np.frombuffer(b'    -1\n@', '<f8')[0], 3.0])
put('K2', {'it': {'d': d58(data=y), 'fd': True}, 'pos': 'new', 'same': False})

# K3: a text that makes a line end in a delimiter
put('K3', {'kind': 'write', 'its': [{'d': {'type': 151, 'model_name': 'beam', 'description': 'x' * 74 + '    -1', 'db_app': 'a', 'program': 'p',
                                          **{k: 'x' for k in ('date_db_created', 'time_db_created', 'date_db_saved', 'time_db_saved', 'date_file_written',
                                                              'time_file_written')}}, 'fd': True}]})

# K4: values of one node or element over several lines
for loc, lab, key in ((1, 'node_nums', 'data_at_node'), (2, 'element_nums', 'data_at_element')):
    q = {k: v for k, v in d.items() if k not in ('node_nums', 'data_at_node')}
    q.update(analysis_dataset_label=1, dataset_location=loc, **{lab: np.array([1, 2]), key: [np.arange(8.0), np.arange(8.0)]})
    put(f'K4_{loc}', {'its': [{'d': q, 'fd': True, 's': style()}], 'final_eol': True})

# K5: negative values with exponents of three digits touch the field before
put('K5_15', rt({'type': 15, 'node_nums': [1], 'x': [1.0], 'y': [-1e-150], 'z': [0.0]}))
put('K5_2414', rt({**d, 'analysis_dataset_label': 1, 'data_at_node': [np.array([1.0, -1e-150, 3.0])]}))

# K6: integers that fill their columns touch
put('K6_15', rt({'type': 15, 'node_nums': [1], 'def_cs': [1234567890], 'disp_cs': [1234567890], 'color': [1], 'x': [1.0], 'y': [0.0], 'z': [0.0]}))

# K7, K8: fix_58b
m = {'d': {'type': 15, 'node_nums': [1], 'x': [0.0], 'y': [0.0], 'z': [0.0]}, 'fd': True}
last_cr = np.array([1.0, 2.0, np.frombuffer(b'abcdefg\r', '<f8')[0]])
last_lf = np.array([1.0, 2.0, np.frombuffer(b'abcdefg\n', '<f8')[0]])
c = {'eol': True, 'name': 'f.uff', 'to': None, 'more': m, 'force': True}
put('K7_own_line', {**c, 'its': [{'d': d58(data=last_cr), 'fd': False, 's': style(), 'own': True}]})
put('K7_no_fault', {**c, 'its': [{'d': d58(data=last_lf), 'fd': False, 's': style(), 'own': False}]})
put('K8', {**c, 'its': [{'d': {'type': 82, 'trace_num': 1, 'nodes': [], 'id': ''}, 'fd': True, 's': style(pad_text=False)}]})

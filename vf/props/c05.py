"""C05: result sets survive write-then-read."""
from . import _rt
from .. import sets

TYPES = [55, 2414]
RULE = ('1..3 result sets: 55 (analysis types 2, 3, 5, 7; real, complex or mixed; 3 or 6 components; 0..2500 nodes) and 2414 (frequency response with 1..3 '
        'complex components; general form at nodes, on elements, at nodes on elements, with any subset of records 10-13), are written and read '
        'back. Non-trivial: the first set has at least one node or element.')
QUICK, THOROUGH = 14400, 160000


def strategy(tier):
    return _rt.case(TYPES)


def run(c, ctx):
    _rt.run(c, ctx)
    d = c['its'][0]['d']
    n = len(d['node_nums'] if 'node_nums' in d else d['element_nums'])
    ctx.trivial = n == 0
    if d['type'] == 55:
        ctx.label(f"55 analysis {d['analysis_type']} {'complex' if sets.t55cx(d) else 'real'} {6 if 'r6' in d else 3}")
    else:
        ctx.label(f"2414 {'frequency response' if d['analysis_type'] == 5 else 'location %d' % d['dataset_location']}")

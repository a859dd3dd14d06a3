"""C03: geometry sets survive write-then-read."""
from . import _rt

TYPES = [15, 18, 82, 2411, 2412, 2412, 2420]
RULE = ('1..3 geometry sets (15, 18, 82, 2411, 2412 in five input forms, 2420) with 0..2500 entries, labels up to 9 digits, coordinates over the '
        'whole exponent range, optional fields in any subset, are written (new, added, list, over other content) and read back. '
        'Non-trivial: the first set has at least one entry.')
QUICK, THOROUGH = 24000, 200000


def strategy(tier):
    return _rt.case(TYPES)


def run(c, ctx):
    _rt.run(c, ctx)
    d = c['its'][0]['d']
    n = next((len(d[k]) for k in ('node_nums', 'cs_num', 'nodes', 'CS_sys_labels') if k in d), None)
    if n is None:
        from ..sets import T
        n = len(T[2412].elements(d))
        ctx.label('2412 ' + ('flat' if 'element_nums' in d else '+'.join(sorted({'desc' if isinstance(k, int) else k for k in d} - {'type'}))))
    ctx.trivial = n == 0
    if n > 9:
        ctx.label('more than 9 entries')

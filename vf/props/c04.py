"""C04: metadata sets survive write-then-read."""
from . import _rt

TYPES = [151, 164, 1858, 2400]
RULE = ('1..3 metadata sets (151, 164, 1858, 2400) whose text fields take 0 to all columns, integers use the full column width with sign, reals the '
        'whole double range, optional fields in any subset, are written and read back. Non-trivial: at least one field beyond the type is given.')
QUICK, THOROUGH = 24000, 200000


def strategy(tier):
    return _rt.case(TYPES)


def run(c, ctx):
    _rt.run(c, ctx)
    ctx.trivial = len(c['its'][0]['d']) < 2

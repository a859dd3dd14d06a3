"""Development aid: probe.py OUT PROP... runs a few hundred cases of each property in this process and stops at the first violation."""
import io
import json
import os
import sys
import tempfile
import shutil
import contextlib
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vf import core, env                                                        # noqa: E402
from vf.common import Violation                                                 # noqa: E402

out, props = sys.argv[1], sys.argv[2:]
pyuff = env.load()
import hypothesis                                                               # noqa: E402
from hypothesis import given, settings, HealthCheck, Phase                      # noqa: E402
N = int(os.environ.get('PROBE_N', '250'))
res = {'state': 'survived'}
root = tempfile.mkdtemp(prefix='probe', dir='/dev/shm')
dn = os.open(os.devnull, os.O_WRONLY)
os.dup2(dn, 1)
try:
    for pid in props:
        mod = core.load_prop(pid)
        ctx = core.Ctx(pyuff, root)
        f = settings(max_examples=N, database=None, deadline=None, suppress_health_check=list(HealthCheck), phases=[Phase.generate])(
            hypothesis.seed(12345)(given(mod.strategy('quick'))(lambda case: core.run_case(mod, case, ctx))))
        try:
            f()
        except Violation as v:
            res = {'state': 'killed', 'by': pid, 'msg': str(v)[:200]}
            break
        except Exception as e:                                                  # noqa: BLE001
            res = {'state': 'killed', 'by': pid, 'msg': f'{type(e).__name__} {e}'[:200]}
            break
finally:
    shutil.rmtree(root, ignore_errors=True)
json.dump(res, open(out, 'w'))

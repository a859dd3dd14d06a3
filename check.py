#!/opt/venv/bin/python
"""check.py <property id> [--replay FILE]: see DESIGN.md."""
import os
import sys

sys.dont_write_bytecode = True
sys.pycache_prefix = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'evidence', 'no-such-cache')   # never a stale .pyc
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))

if __name__ == '__main__':
    from vf.core import main
    sys.exit(main(sys.argv))

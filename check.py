#!/opt/venv/bin/python
"""check.py ID quick|thorough, or check.py --replay FILE"""
import os
import sys

os.environ.setdefault('PYTHONHASHSEED', '0')
if os.environ.get('VERIF_CHILD') != '1':
    # Re-execute with fixed hashing, no byte code written next to the code under test, and no caches read.
    os.environ['VERIF_CHILD'] = '1'
    os.environ['PYTHONHASHSEED'] = '0'
    os.environ['PYTHONDONTWRITEBYTECODE'] = '1'
    for k in list(os.environ):
        if k.lower().endswith('_proxy'):
            del os.environ[k]
    os.execv('/opt/venv/bin/python', ['/opt/venv/bin/python', '-W', 'ignore'] + sys.argv)

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from lib import core  # noqa: E402

if __name__ == '__main__':
    args = sys.argv[1:]
    core.setup_target(virtual_clock=not any('C24' in a for a in args))
    sys.exit(core.main(args))

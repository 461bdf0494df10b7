#!/opt/venv/bin/python
"""usage: check.py <PROPERTY-ID>   (VERIF_TIER=quick|thorough, VERIF_REPO=/repo)"""
import importlib
import os
import sys

os.environ.setdefault('PYTHONHASHSEED', '0')
if os.environ.get('MC_REEXEC') != '1':
    os.environ['MC_REEXEC'] = '1'
    os.environ['PYTHONDONTWRITEBYTECODE'] = '1'
    os.execv(sys.executable, [sys.executable, '-B'] + sys.argv)

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from mc import core  # noqa: E402

core.setup_path()


def main():
    pid = sys.argv[1]
    chk = core.Check(pid)
    try:
        mod = core.watch(lambda: importlib.import_module('mc.checks.' + pid.lower()), 2)
        mod.run(chk)
    except Exception as e:
        v = core.from_impl(e)
        if v is None:
            raise
        chk.fail('preparation', 0, v, None)
    chk.done()
    return 0


if __name__ == '__main__':
    sys.exit(main())

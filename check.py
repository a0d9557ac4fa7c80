"""Entry point: check.py <property> [--tier quick|thorough] [--replay FILE]"""
import importlib
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
if os.environ.get('PYTHONHASHSEED') is None:
    os.environ['PYTHONHASHSEED'] = '0'
    for k in ('OPENBLAS_NUM_THREADS', 'OMP_NUM_THREADS', 'MKL_NUM_THREADS', 'NUMBA_NUM_THREADS'):
        os.environ[k] = '1'
    os.execv(sys.executable, [sys.executable] + sys.argv)

from sim import boot                                         # noqa: E402

prop = sys.argv[1]
boot.load_beluga()                                           # before anything else can import it
mod = importlib.import_module('props.' + prop)
from sim import core                                         # noqa: E402

sys.exit(core.main(mod, sys.argv[2:]))

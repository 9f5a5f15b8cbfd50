"""Process set-up shared by every check: import qnet from /repo's working tree, hypothesis from the tool venv.

The tool venv also holds newer sympy/numpy/attrs which must not shadow the versions QNET needs, so only a whitelist of
module names is resolved there, by a meta-path finder that comes last.
"""
import os
import sys
import warnings

for _v in ('OMP_NUM_THREADS', 'OPENBLAS_NUM_THREADS', 'MKL_NUM_THREADS'):
    os.environ.setdefault(_v, '1')
os.environ.setdefault('MPLBACKEND', 'Agg')
sys.dont_write_bytecode = True
warnings.simplefilter('ignore')

REPO = os.environ.get('VF_REPO', '/repo')
PYVENV = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'
_WHITELIST = ('hypothesis', 'sortedcontainers')

from importlib.machinery import PathFinder


class _ToolFinder:
    @staticmethod
    def find_spec(name, path=None, target=None):
        top = name.split('.')[0]
        if path is None and (top in _WHITELIST or top.startswith('_hypothesis')):
            return PathFinder.find_spec(name, [PYVENV], target)
        return None


if not any(isinstance(f, type) and f.__name__ == '_ToolFinder' for f in sys.meta_path):
    sys.meta_path.append(_ToolFinder)

_src = os.path.join(REPO, 'src')
if sys.path[0] != _src:
    sys.path.insert(0, _src)

import qnet  # noqa

if not os.path.realpath(qnet.__file__).startswith(os.path.realpath(_src)):
    raise SystemExit('qnet imported from %s instead of %s' % (qnet.__file__, _src))

"""Nothing to build ahead: every check compiles what it needs from /repo's working tree. This only checks the tools."""
import shutil
import sys

sys.dont_write_bytecode = True
missing = []
for name in ('numpy', 'scipy', 'sympy', 'cloudpickle', 'pathos'):
    try:
        __import__(name)
    except ImportError:
        missing.append(name)
if not shutil.which('gcc'):
    missing.append('gcc')
if missing:
    sys.exit('missing: %s' % ', '.join(missing))
print('ready')

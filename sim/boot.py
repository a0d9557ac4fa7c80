"""Bootstrap: import beluga from /repo's working tree, never from a bytecode cache or an installed copy.

Every simulated source of nondeterminism that is patched process-wide (worker pools) is patched here, before beluga is
imported, so that it does not matter how the code under test refers to it.
"""
import os
import sys
import importlib.machinery
import importlib.abc

REPO = os.environ.get('VERIF_REPO', '/repo')

for _k in ('OPENBLAS_NUM_THREADS', 'OMP_NUM_THREADS', 'MKL_NUM_THREADS', 'NUMEXPR_NUM_THREADS', 'NUMBA_NUM_THREADS'):
    os.environ[_k] = '1'
os.environ.setdefault('NUMBA_DISABLE_JIT', '1')
os.environ.setdefault('MPLBACKEND', 'Agg')
sys.dont_write_bytecode = True


class _NoCacheLoader(importlib.machinery.SourceFileLoader):
    """Always compiles the source file: a stale .pyc can never hide a change."""

    def get_code(self, fullname):
        path = self.get_filename(fullname)
        return self.source_to_code(self.get_data(path), path)


class _RepoFinder(importlib.abc.MetaPathFinder):
    def find_spec(self, fullname, path=None, target=None):
        if fullname != 'beluga' and not fullname.startswith('beluga.'):
            return None
        base = os.path.join(REPO, *fullname.split('.'))
        init = os.path.join(base, '__init__.py')
        if os.path.isfile(init):
            return _spec(fullname, init, [base])
        if os.path.isfile(base + '.py'):
            return _spec(fullname, base + '.py', None)
        if os.path.isdir(base):
            spec = importlib.machinery.ModuleSpec(fullname, None, is_package=True)
            spec.submodule_search_locations = [base]
            return spec
        return None


def _spec(fullname, filename, locations):
    from importlib.util import spec_from_file_location
    return spec_from_file_location(fullname, filename, loader=_NoCacheLoader(fullname, filename),
                                   submodule_search_locations=locations)


def install():
    sys.meta_path[:] = [f for f in sys.meta_path if 'editable' not in (type(f).__module__ or '').lower()]
    if not any(isinstance(f, _RepoFinder) for f in sys.meta_path):
        sys.meta_path.insert(0, _RepoFinder())


def load_beluga():
    """Imports beluga from REPO, quiet, and returns the module."""
    install()
    from sim import pool
    pool.install()
    import warnings
    warnings.simplefilter('ignore')
    import logging
    logging.getLogger().addHandler(logging.NullHandler())
    logging.getLogger().setLevel(logging.CRITICAL)
    import beluga
    assert os.path.realpath(beluga.__file__).startswith(os.path.realpath(REPO) + os.sep), beluga.__file__
    beluga.utils.init_logging(display_level=logging.CRITICAL, file_level=logging.NOTSET)
    return beluga

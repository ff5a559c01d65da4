"""Process start-up: a fixed environment before numpy or the code under test
is imported, so that one seed is one execution."""
import importlib.abc
import importlib.machinery
import os
import sys

REPO = os.environ.get('VERIF_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PYTHON = '/opt/venv/bin/python'

FIXED_ENV = {
    'PYTHONHASHSEED': '0',
    'PYTHONDONTWRITEBYTECODE': '1',
    'OMP_NUM_THREADS': '1',
    'OPENBLAS_NUM_THREADS': '1',
    'MKL_NUM_THREADS': '1',
    'NUMEXPR_NUM_THREADS': '1',
    'MPLBACKEND': 'Agg',
    'TZ': 'UTC',
    'LC_ALL': 'C.UTF-8',
    'PYTHONWARNINGS': 'ignore',
}


def child_env(**over):
    """Environment for a process of the simulation."""
    env = {k: v for k, v in os.environ.items()
           if not k.startswith(('PYTHON', 'MALLOC_', 'LC_', 'LANG'))}
    env.update(FIXED_ENV)
    env.update({k: str(v) for k, v in over.items()})
    env['SIM_BOOTED'] = '1'
    return env


def reexec_if_needed():
    """Start again under the fixed environment (once)."""
    if os.environ.get('SIM_BOOTED') == '1':
        return
    py = PYTHON if os.path.exists(PYTHON) else sys.executable
    os.execve(py, [py, '-m', 'sim.check'] + sys.argv[1:], child_env())


class _SourceOnlyLoader(importlib.machinery.SourceFileLoader):
    """Always compiles the current source, never reads cached bytecode."""

    def get_code(self, fullname):
        path = self.get_filename(fullname)
        return self.source_to_code(self.get_data(path), path)


class _SourceOnlyFinder(importlib.abc.MetaPathFinder):
    def find_spec(self, fullname, path=None, target=None):
        if fullname != 'pvfactors' and not fullname.startswith('pvfactors.'):
            return None
        spec = importlib.machinery.PathFinder.find_spec(fullname, path)
        if spec is not None and type(spec.loader) is \
                importlib.machinery.SourceFileLoader:
            spec.loader = _SourceOnlyLoader(spec.loader.name,
                                            spec.loader.path)
        return spec


def prepare():
    """Make the current source of the code under test importable."""
    import logging
    import tempfile
    import warnings
    sys.dont_write_bytecode = True
    sys.path[:] = [p for p in sys.path
                   if os.path.realpath(p or '.') != os.path.realpath(REPO)]
    sys.path.insert(0, REPO)
    sys.meta_path.insert(0, _SourceOnlyFinder())
    if 'MPLCONFIGDIR' not in os.environ:
        base = os.path.join(tempfile.gettempdir(), 'sim_mpl')
        os.makedirs(base, exist_ok=True)
        os.environ['MPLCONFIGDIR'] = base
    warnings.simplefilter('ignore')
    logging.disable(logging.CRITICAL)


def import_all():
    """Import all modules of the code under test: none is to be loaded first
    in the middle of a simulated run."""
    import pkgutil
    import pvfactors
    for m in pkgutil.walk_packages(pvfactors.__path__, 'pvfactors.',
                                   onerror=lambda n: None):
        if '.tests' not in m.name:
            try:
                importlib.import_module(m.name)
            except Exception:  # noqa: not used by the simulations then
                pass


def check_origin():
    """The code under test must come from REPO."""
    import pvfactors
    got = os.path.realpath(os.path.dirname(os.path.dirname(
        pvfactors.__file__)))
    if got != os.path.realpath(REPO):
        raise RuntimeError('pvfactors imported from %s, not %s' % (got, REPO))

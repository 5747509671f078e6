"""Process environment of a check, and the import of the code under test."""
import os, sys

ENV = {
    'LC_ALL': 'C.UTF-8', 'PYTHONDONTWRITEBYTECODE': '1', 'PYTHONWARNINGS': 'ignore',
    'MPLBACKEND': 'Agg', 'OMP_NUM_THREADS': '1', 'OPENBLAS_NUM_THREADS': '1',
    'OMPI_MCA_ess_singleton_isolated': '1', 'OMPI_MCA_btl': 'self', 'OMPI_MCA_pml': 'ob1', 'OMPI_MCA_osc': '^ucx',
    'OMPI_MCA_mpi_event_tick_rate': '1',
}
PYTHON = '/opt/venv/bin/python'


def reexec():
    """Re-execute under /opt/venv's Python with a fixed environment (hash seed included)."""
    if os.environ.get('DTSIM_ENV') == '1':
        return
    e = dict(os.environ)
    e.update(ENV)
    e.setdefault('PYTHONHASHSEED', '0')
    here = os.path.dirname(os.path.abspath(__file__))
    root = os.path.dirname(here)
    e['DTSIM_ENV'] = '1'
    # form cache: private copy, so nothing is written outside /verif
    cache = os.path.join(root, '.build', 'dijitso')
    if not os.path.isdir(cache):
        os.makedirs(os.path.dirname(cache), exist_ok=True)
        os.system('cp -a /opt/dt-build/dijitso %s 2>/dev/null || mkdir -p %s' % (cache, cache))
    e['DIJITSO_CACHE_DIR'] = cache
    mpl = os.path.join(root, '.build', 'mpl')
    os.makedirs(mpl, exist_ok=True)
    e['MPLCONFIGDIR'] = mpl
    e.pop('DISPLAY', None)
    os.execve(PYTHON, [PYTHON, '-m', 'dtsim.main'] + sys.argv[1:], e)


def load(libdir):
    """Put the code under test on sys.path and import it."""
    from . import build
    sys.path[:0] = ['/opt/vp/plugin', libdir, build.REPO]
    import dt_pybind11_bridge  # noqa: F401  (must precede any *_solib)
    import warnings
    warnings.simplefilter('ignore')

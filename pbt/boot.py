"""Make Hypothesis importable and import sympl from /repo's working tree."""
import glob
import os
import sys
import tempfile
import zipfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('SYMPL_REPO', '/repo')
WHEELS = '/opt/veriftools/wheels'
PYVENV = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'


def _have_hypothesis():
    try:
        import hypothesis  # noqa
        import sortedcontainers  # noqa
        return True
    except ImportError:
        return False


def _unpack(target):
    names = []
    for pattern in ('hypothesis-*-cp312-cp312-*x86_64*.whl', 'sortedcontainers-*.whl'):
        found = sorted(glob.glob(os.path.join(WHEELS, pattern)))
        if not found:
            return False
        names.append(found[-1])
    for name in names:
        with zipfile.ZipFile(name) as z:
            z.extractall(target)
    return True


def ensure_hypothesis():
    if _have_hypothesis():
        return
    deps = os.path.join(VERIF, '.deps')
    if not os.path.isdir(deps):
        tmp = tempfile.mkdtemp(prefix='.deps-', dir=VERIF)
        ok = _unpack(tmp)
        if not ok:  # fall back on the tooling venv, only these packages
            for pkg in ('hypothesis', 'sortedcontainers'):
                os.symlink(os.path.join(PYVENV, pkg), os.path.join(tmp, pkg))
            for path in glob.glob(os.path.join(PYVENV, '_hypothesis*')):
                os.symlink(path, os.path.join(tmp, os.path.basename(path)))
        try:
            os.rename(tmp, deps)
        except OSError:  # somebody else was faster
            import shutil
            shutil.rmtree(tmp, ignore_errors=True)
    sys.path.append(deps)
    if not _have_hypothesis():
        raise RuntimeError('Hypothesis is not available')


def import_sympl():
    """Import third-party modules with their caches, then sympl from source
    only (no .pyc can hide a change made within the same second)."""
    import numpy, xarray, pint, netCDF4, cftime  # noqa
    sys.pycache_prefix = os.path.join(tempfile.gettempdir(), 'no-such-pycache-dir-pbt')
    sys.dont_write_bytecode = True
    sys.path.insert(0, REPO)
    import sympl
    real = os.path.realpath(sympl.__file__)
    want = os.path.realpath(os.path.join(REPO, 'sympl')) + os.sep
    if not real.startswith(want):
        raise RuntimeError('sympl imported from {} instead of {}'.format(real, want))
    return sympl

"""Imports czone from /repo's working tree (never a stale .pyc) with its third-party dependencies."""
import os, sys, tempfile, atexit, shutil, warnings
os.environ.setdefault("MPLBACKEND", "Agg")
for v in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS"):
    os.environ[v] = "1"
if os.access("/dev/shm", os.W_OK):
    tempfile.tempdir = "/dev/shm"     # scipy opens a temporary file per hull
_mpl = tempfile.mkdtemp(prefix="mc_mpl_")
os.environ.setdefault("MPLCONFIGDIR", _mpl)
_pid = os.getpid()


def _clean():
    if os.getpid() == _pid:
        shutil.rmtree(_mpl, ignore_errors=True)


atexit.register(_clean)
warnings.filterwarnings("ignore")
try:                               # arrays of the code under test come and go: keep their memory
    import ctypes
    _libc = ctypes.CDLL(None)
    _libc.mallopt(-3, 1 << 30), _libc.mallopt(-1, 1 << 30)
except Exception:
    pass
import numpy as np, scipy, scipy.spatial, scipy.optimize, scipy.spatial.transform  # noqa
import ase, ase.io, ase.build, ase.geometry  # noqa
import pymatgen, pymatgen.core  # noqa
from mc import rng
rng.install()                      # before czone, so that copied references are ours too
REPO = os.environ.get("MC_REPO", "/repo")
sys.dont_write_bytecode = True
sys.pycache_prefix = os.path.join(_mpl, "pyc")
for k in [k for k in sys.modules if k == "czone" or k.startswith("czone.")]:
    del sys.modules[k]
sys.path.insert(0, REPO)
import czone  # noqa
assert os.path.realpath(czone.__file__).startswith(os.path.realpath(REPO) + os.sep), czone.__file__
# numerical noise of the code under test must not fail an execution
np.seterr(all="ignore")
import io, contextlib


@contextlib.contextmanager
def quiet():
    with contextlib.redirect_stdout(io.StringIO()):
        yield

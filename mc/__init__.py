"""Explorer for bartpy: exhaustive enumeration of bounded behaviours of the real code in /repo."""
import atexit
import os
import shutil
import sys
import tempfile

REPO = os.environ.get("MC_SCRATCH_REPO", "/repo").rstrip("/")     # another tree only when trying planted bugs on scratch copies
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

_tmp = tempfile.mkdtemp(prefix="mc_pyc_")
_owner = os.getpid()


def _cleanup():
    if os.getpid() == _owner:
        shutil.rmtree(_tmp, ignore_errors=True)


atexit.register(_cleanup)
sys.dont_write_bytecode = True
sys.pycache_prefix = _tmp          # never read a stale .pyc of /repo, never write one
for _k in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS"):
    os.environ[_k] = "1"
os.environ["MPLBACKEND"] = "Agg"
os.environ["TQDM_DISABLE"] = "1"
os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
os.environ.setdefault("MPLCONFIGDIR", _tmp)
sys.path[:] = [REPO] + [p for p in sys.path if p not in (REPO, "")]
if VERIF not in sys.path:
    sys.path.append(VERIF)

from mc import rng  # noqa: E402
rng.install()       # before bartpy is imported, so that `from numpy.random import ...` sees the shims
from mc import sched  # noqa: E402
sched.install()

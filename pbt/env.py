"""Process-wide set-up: import paths, determinism knobs.  Import this first."""
import os
import sys

os.environ.setdefault("MPLBACKEND", "Agg")
os.environ["TZ"] = "UTC"
os.environ.setdefault("OMP_NUM_THREADS", "1")
os.environ.setdefault("OPENBLAS_NUM_THREADS", "1")
sys.dont_write_bytecode = True

REPO = os.environ.get("PBT_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

# code under test: always the working tree
if REPO in sys.path:
    sys.path.remove(REPO)
sys.path.insert(0, REPO)
# hypothesis lives in the verification tooling venv (same Python 3.12); it goes last so that
# numpy/pandas/scipy still come from the interpreter that runs the project.
_HYP = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
if _HYP not in sys.path:
    sys.path.append(_HYP)

import warnings  # noqa: E402

warnings.filterwarnings("ignore")


def import_sut():
    """Import the third-party stack with its bytecode caches, then make sure that the project
    itself is always compiled from source (a stale __pycache__ can hide an edit)."""
    import numpy, pandas, scipy.stats, pytz, dateutil.parser  # noqa: F401,E401
    import pix_framework.statistics.distribution  # noqa: F401
    import pix_framework.discovery.resource_calendar_and_performance.crisp.resource_calendar  # noqa: F401

    sys.pycache_prefix = "/nonexistent-pycache-%d" % os.getpid()
    import prosimos.simulation_engine  # noqa: F401


import_sut()

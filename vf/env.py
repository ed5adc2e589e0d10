"""Environment set up before anything of the code under test is imported."""
import os
import sys
import tempfile
import shutil
import atexit

REPO = os.environ.get("VF_REPO", "/repo")
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPECS = os.path.join(ROOT, "specs")
EVID = os.environ.get("VF_EVID", os.path.join(ROOT, "evidence"))

_scratch = None


def scratch():
    """One scratch directory per process tree; removed at exit of the creating process."""
    global _scratch
    if _scratch is None:
        _scratch = tempfile.mkdtemp(prefix="vf_")
        pid = os.getpid()

        def _rm(path=_scratch):
            if os.getpid() == pid:
                shutil.rmtree(path, ignore_errors=True)

        atexit.register(_rm)
    return _scratch


def prepare():
    work = scratch()
    os.environ["HOME"] = os.path.join(work, "home")
    os.environ["XDG_CACHE_HOME"] = os.path.join(work, "cache")
    os.environ["MPLCONFIGDIR"] = os.path.join(work, "mpl")
    for k in ("HOME", "XDG_CACHE_HOME", "MPLCONFIGDIR"):
        os.makedirs(os.environ[k], exist_ok=True)
    os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
    sys.dont_write_bytecode = True
    os.environ["MPLBACKEND"] = "Agg"
    os.environ["PWNLIB_NOTERM"] = "1"
    os.environ["TZ"] = "UTC"
    import time

    time.tzset()
    os.environ["LANG"] = "C.UTF-8"
    os.environ["TQDM_DISABLE"] = "1"
    os.environ["OMP_NUM_THREADS"] = "1"
    os.environ["OPENBLAS_NUM_THREADS"] = "1"
    for p in ("shepherd_data", "shepherd_core"):
        path = os.path.join(REPO, p)
        if path not in sys.path:
            sys.path.insert(0, path)
    import logging

    logging.disable(logging.CRITICAL)

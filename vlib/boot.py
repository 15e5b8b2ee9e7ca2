"""Paths, scratch space and process hygiene shared by every check."""
import atexit
import os
import shutil
import sys
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SRC = os.path.join(REPO, "src")
VT_SITE = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"

REAL_STDERR = sys.stderr
CWD = os.getcwd()
SCRATCH = None


def setup():
    """Create this run's scratch directory, move there, and make spex importable.

    The working directory matters: importing spex writes spex.log into it."""
    global SCRATCH
    base = "/dev/shm" if os.access("/dev/shm", os.W_OK) and shutil.disk_usage("/dev/shm").free > 1 << 30 else None
    SCRATCH = tempfile.mkdtemp(prefix="spexv-", dir=base)
    owner = os.getpid()

    def cleanup():
        if os.getpid() == owner:
            os.chdir("/")
            shutil.rmtree(SCRATCH, ignore_errors=True)

    atexit.register(cleanup)
    os.makedirs(os.path.join(SCRATCH, "tmp"))
    tempfile.tempdir = os.path.join(SCRATCH, "tmp")
    os.environ["TMPDIR"] = tempfile.tempdir
    sys.pycache_prefix = os.path.join(SCRATCH, "pyc")
    sys.dont_write_bytecode = True
    os.environ["HYPOTHESIS_STORAGE_DIRECTORY"] = os.path.join(SCRATCH, "hyp")
    os.environ["PYTHONBREAKPOINT"] = "0"
    os.chdir(SCRATCH)
    for p in list(sys.path):
        if p and os.path.abspath(p).startswith(REPO + "/"):
            sys.path.remove(p)
    # drop the script directory: its module names must not shadow anything
    sys.path[:] = [p for p in sys.path if os.path.abspath(p or ".") != os.path.join(VERIF, "vlib")]
    sys.path.insert(0, SRC)
    sys.path.insert(1, VERIF)
    sys.path.append(VT_SITE)


def quiet_spex():
    """Import spex without its log sinks: they are expensive and one check's own subject."""
    devnull = open(os.devnull, "w")
    keep = sys.stderr
    sys.stderr = devnull
    try:
        import spex
        import spex.log  # noqa: F401
        from loguru import logger

        assert os.path.abspath(spex.__file__).startswith(os.path.abspath(SRC) + "/"), spex.__file__
        logger.remove()
    finally:
        sys.stderr = keep

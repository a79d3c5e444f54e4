"""Process environment: which tree is observed, and no side effects outside scratch."""
import os, sys, tempfile, atexit, shutil

REPO = os.environ.get("FMON_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OUT = os.environ.get("FMON_OUT", VERIF)  # evidence and replay files
for k in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS", "VTK_SMP_MAX_THREADS"):
    os.environ[k] = "1"
os.environ["MPLBACKEND"] = "Agg"
os.environ["PYVISTA_OFF_SCREEN"] = "true"
os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
sys.dont_write_bytecode = True
_scratch = None


def scratch():
    """Scratch directory of this process, removed when it ends."""
    global _scratch
    if _scratch is None:
        _scratch = tempfile.mkdtemp(prefix="fmon.")
        pid = os.getpid()

        def clean(d=_scratch):
            if os.getpid() == pid:
                shutil.rmtree(d, ignore_errors=True)
        atexit.register(clean)
    return _scratch


def load():
    """Import fibermat from the observed tree (never from an installed copy)."""
    import warnings
    warnings.filterwarnings("ignore")
    os.environ.setdefault("MPLCONFIGDIR", os.path.join(scratch(), "mpl"))
    os.environ["MPLCONFIGDIR"] = os.path.join(scratch(), "mpl")
    src = os.path.join(REPO, "src")
    sys.path.insert(0, src)
    import fibermat
    f = os.path.realpath(fibermat.__file__)
    if f != os.path.realpath(os.path.join(src, "fibermat", "__init__.py")):
        raise SystemExit("fmon: fibermat was imported from %s" % f)
    return fibermat

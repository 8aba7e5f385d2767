"""Process environment of the checks (python interpreter of the repo, deterministic settings, numba cache)."""
import hashlib
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SRC = os.path.join(REPO, "src")
PY = "/opt/venv/bin/python"
TOOLS = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
CACHE = os.path.join(ROOT, ".cache")


def source_hash():
    """Hash over the whole source tree under test: keys the numba cache, so no stale machine code is ever used."""
    h = hashlib.sha256()
    for d, dirs, files in sorted(os.walk(os.path.join(SRC, "qrisp"))):
        dirs.sort()
        for f in sorted(files):
            if f.endswith(".py"):
                p = os.path.join(d, f)
                h.update(p.encode())
                with open(p, "rb") as fh:
                    h.update(fh.read())
    return h.hexdigest()[:20]


def child_env(numba_dir):
    e = dict(os.environ)
    e.update(MPLBACKEND="Agg", JAX_PLATFORMS="cpu", PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0",
             NUMBA_CACHE_DIR=numba_dir, OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", MKL_NUM_THREADS="1",
             NUMBA_NUM_THREADS="1", XLA_FLAGS="--xla_cpu_multi_thread_eigen=false intra_op_parallelism_threads=1",
             TF_CPP_MIN_LOG_LEVEL="3", LANG="C.UTF-8", QRISP_VERIF_SRC=SRC,
             MPLCONFIGDIR=os.path.join(CACHE, "mpl"), HOME=os.path.join(CACHE, "home"))
    e["PYTHONPATH"] = SRC
    e.pop("PYTHONSTARTUP", None)
    for d in (e["MPLCONFIGDIR"], e["HOME"], numba_dir):
        os.makedirs(d, exist_ok=True)
    return e

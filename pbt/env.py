"""Process set-up shared by the runner and its workers: import this first.

Library under test: /repo's working tree (never a copy).  Generator library:
Hypothesis, taken from wherever it is available offline.
"""

import os
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SEED = int(os.environ.get("VERIF_SEED", "1"))
TIER = os.environ.get("VERIF_TIER", "quick")
if TIER not in ("quick", "thorough"):
    TIER = "quick"

# Single-threaded, reproducible numerics; several worker processes give parallelism.
ENV = {
    "JAX_PLATFORMS": "cpu",
    "XLA_FLAGS": "--xla_cpu_multi_thread_eigen=false",
    "OMP_NUM_THREADS": "1",
    "OPENBLAS_NUM_THREADS": "1",
    "MKL_NUM_THREADS": "1",
    "PYTHONHASHSEED": "0",
    "PYTHONDONTWRITEBYTECODE": "1",
    "EQX_GETKEY_SEED": "0",
    "JAX_ENABLE_X64": "1",
}


def _have_hypothesis():
    try:
        import hypothesis  # noqa: F401

        return True
    except ImportError:
        return False


def add_paths():
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    if _have_hypothesis():
        return
    for extra in (
        os.path.join(VERIF, ".deps"),
        "/opt/veriftools/pyvenv/lib/python3.12/site-packages",
    ):
        if os.path.isdir(os.path.join(extra, "hypothesis")):
            sys.path.append(extra)
            if _have_hypothesis():
                return
            sys.path.remove(extra)
    raise RuntimeError("hypothesis is not available")


def setup_jax():
    for k, v in ENV.items():
        os.environ.setdefault(k, v)
    sys.dont_write_bytecode = True
    add_paths()
    import warnings

    warnings.filterwarnings("ignore", message="Complex support in Optimistix")
    import jax

    jax.config.update("jax_enable_x64", True)
    return jax

"""Process set-up shared by every worker: environment, Hypothesis, and pySLM2 from /repo.

Nothing here draws random numbers.  Hypothesis lives in another virtualenv of the
sandbox than TensorFlow, so only the packages it needs are linked into a private
directory which is put at the end of sys.path.
"""
import atexit
import glob
import os
import shutil
import sys
import tempfile
import warnings
import zipfile

REPO = os.environ.get("VERIF_REPO", "/repo")
PYVENV = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
WHEELS = "/opt/veriftools/wheels"
_PATTERNS = ("hypothesis", "_hypothesis_*.py", "sortedcontainers")


def quiet_env():
    os.environ.update({
        "TF_CPP_MIN_LOG_LEVEL": "3", "CUDA_VISIBLE_DEVICES": "-1", "MPLBACKEND": "Agg",
        "TF_NUM_INTRAOP_THREADS": "1", "TF_NUM_INTEROP_THREADS": "1", "OMP_NUM_THREADS": "1",
        "OPENBLAS_NUM_THREADS": "1", "TF_ENABLE_ONEDNN_OPTS": "0", "GRPC_VERBOSITY": "ERROR",
        "HYPOTHESIS_NO_PLUGINS": "1",
    })


def hypothesis_path():
    """Make `import hypothesis` work without shadowing anything of /opt/venv."""
    try:
        import hypothesis  # noqa: F401
        return
    except ImportError:
        pass
    d = tempfile.mkdtemp(prefix="vhyp-")
    atexit.register(shutil.rmtree, d, ignore_errors=True)
    if os.path.isdir(os.path.join(PYVENV, "hypothesis")):
        for pat in _PATTERNS:
            for p in glob.glob(os.path.join(PYVENV, pat)):
                os.symlink(p, os.path.join(d, os.path.basename(p)))
    else:
        for pat in ("hypothesis-*-cp312-*.whl", "hypothesis-*-py3-none-any.whl", "sortedcontainers-*.whl"):
            for w in sorted(glob.glob(os.path.join(WHEELS, pat)))[-1:]:
                zipfile.ZipFile(w).extractall(d)
    sys.path.append(d)


def load(dtype=None):
    """Import pySLM2 from /repo's working tree and select the precision."""
    warnings.filterwarnings("ignore")
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    import logging
    logging.getLogger("tensorflow").setLevel(logging.CRITICAL)
    logging.getLogger("absl").setLevel(logging.CRITICAL)
    import tensorflow as tf
    tf.get_logger().setLevel("CRITICAL")
    try:
        tf.autograph.set_verbosity(0)
    except Exception:
        pass
    import pySLM2
    real = os.path.realpath(pySLM2.__file__)
    if not real.startswith(os.path.realpath(REPO) + os.sep):
        raise RuntimeError("pySLM2 was imported from %s, not from %s" % (real, REPO))
    if dtype == "float64":
        pySLM2.BACKEND.dtype = pySLM2.BACKEND.TENSOR_64BITS
    return tf, pySLM2

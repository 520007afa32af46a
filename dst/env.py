"""Process set-up: environment, TensorFlow, fresh instances of the library under test."""
import os
import sys

REPO = os.environ.get("VERIF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PYTHON = os.environ.get("VERIF_PYTHON", "/opt/venv/bin/python")

ENV = dict(MPLBACKEND="Agg", CUDA_VISIBLE_DEVICES="-1", TF_CPP_MIN_LOG_LEVEL="3", OMP_NUM_THREADS="1",
           OPENBLAS_NUM_THREADS="1", TF_ENABLE_ONEDNN_OPTS="0", PYTHONDONTWRITEBYTECODE="1", TF_NUM_INTRAOP_THREADS="1")


def apply_env():
    for k, v in ENV.items():
        os.environ.setdefault(k, v)
    sys.dont_write_bytecode = True
    if REPO not in sys.path[:1]:
        sys.path.insert(0, REPO)


_tf = None


def tf():
    global _tf
    if _tf is None:
        apply_env()
        import tensorflow
        tensorflow.config.threading.set_intra_op_parallelism_threads(1)
        tensorflow.config.threading.set_inter_op_parallelism_threads(8)
        tensorflow.get_logger().setLevel("ERROR")
        _tf = tensorflow
    return _tf


def purge(prefix="pySLM2"):
    for name in [m for m in sys.modules if m == prefix or m.startswith(prefix + ".")]:
        del sys.modules[name]


def library_files():
    out = []
    for d, _, files in os.walk(os.path.join(REPO, "pySLM2")):
        out += [os.path.join(d, f) for f in files if f.endswith(".py")]
    return sorted(out)


LIB_PREFIX = os.path.join(os.path.realpath(REPO), "pySLM2") + os.sep
_cache = {}


def is_lib_file(filename):
    r = _cache.get(filename)
    if r is None:
        r = _cache[filename] = filename.startswith(LIB_PREFIX) or os.path.realpath(filename).startswith(LIB_PREFIX)
    return r

"""Seams of the numerical library: FFT, random source, Python calls made by the library, array-likes supplied by the user."""
import sys
import threading

import numpy as np

from . import env

STATE = threading.local()


class InjectedFailure(Exception):
    pass


class Hooks:
    """What the seams do at the moment; one per run, replaced between operations."""
    def __init__(self):
        self.fft = None            # callable(kind, n) before a transform
        self.fft_post = None       # callable(kind) after a transform
        self.draw = None           # callable(shape, n) -> uniform numbers in [0,1)
        self.n_fft = 0
        self.n_draw = 0
        self.draw_shapes = []


HOOKS = Hooks()
_installed = False
_orig = {}


def install():
    """np.fft.fft2 / ifft2 and tf.random.uniform go through hooks. Must run before the library is imported."""
    global _installed
    if _installed:
        return
    _installed = True
    tf = env.tf()
    from . import model          # keeps the originals
    for name in ("fft2", "ifft2"):
        _orig[name] = getattr(np.fft, name)

        def wrapper(*a, _name=name, **k):
            h = HOOKS
            n = h.n_fft
            h.n_fft += 1
            if h.fft is not None:
                h.fft(_name, n)
            out = _orig[_name](*a, **k)
            if h.fft_post is not None:
                h.fft_post(_name)
            return out
        setattr(np.fft, name, wrapper)
    _orig["uniform"] = tf.random.uniform


def _dtype(d):
    return env.tf().as_dtype(d)


def seam_uniform():
    tf = env.tf()
    uniform = _orig["uniform"]

    @tf.autograph.experimental.do_not_convert
    def draw_uniform(shape, minval=0, maxval=None, dtype=tf.float32, seed=None, name=None):
        dt = tf.as_dtype(dtype)
        if not dt.is_floating:
            return uniform(shape, minval, maxval, dtype=dtype, seed=seed, name=name)

        def draw(s):
            h = HOOKS
            n = h.n_draw
            h.n_draw += 1
            s = tuple(int(i) for i in np.ravel(s))
            h.draw_shapes.append(s)
            u = h.draw(s, n) if h.draw is not None else np.full(s, 0.5)
            u = np.asarray(u, dtype=dt.as_numpy_dtype).reshape(s)
            top = np.nextafter(dt.as_numpy_dtype(1), dt.as_numpy_dtype(0))
            return np.minimum(u, top)
        static = tf.TensorShape(shape) if not tf.is_tensor(shape) else None
        u = tf.numpy_function(draw, [tf.cast(shape, tf.int64) if tf.is_tensor(shape) else np.array(tf.TensorShape(shape).as_list(), dtype=np.int64)], dt, stateful=True)
        if static is not None:
            u.set_shape(static)
        lo = 0.0 if minval is None else minval
        hi = 1.0 if maxval is None else maxval
        if isinstance(lo, (int, float)) and isinstance(hi, (int, float)) and lo == 0 and hi == 1:
            return u
        return tf.cast(lo, dt) + u * (tf.cast(hi, dt) - tf.cast(lo, dt))
    return draw_uniform


def use_rng_seam(on):
    tf = env.tf()
    tf.random.uniform = seam_uniform() if on else _orig["uniform"]


def fresh_library(bits=32, seam=True, seed=None, fft=None):
    """A fresh instance of the library = a fresh session."""
    install()
    tf = env.tf()
    env.purge("pySLM2")
    use_rng_seam(seam)
    if seed is not None:
        tf.random.set_seed(seed)
    import importlib
    lib = importlib.import_module("pySLM2")
    if bits == 64:
        lib.BACKEND.dtype = lib.BACKEND.TENSOR_64BITS
    if fft is not None:
        lib.BACKEND.fft_backend = lib.BACKEND.FFT_BACKEND_TENSORFLOW if fft == "tf" else lib.BACKEND.FFT_BACKEND_NUMPY
    return lib


# ------------------------------------------------------------------------------------------- Python calls of the library

class CallPoints:
    """Counts the Python calls the library makes outside graph tracing; can raise at the k-th one.

    These are exactly the points at which CPython delivers a signal (KeyboardInterrupt) or an allocation can fail."""

    def __init__(self, raise_at=None, exc=KeyboardInterrupt, on_point=None):
        self.raise_at, self.exc, self.on_point = raise_at, exc, on_point
        self.n = 0
        self.fired = None

    def trace(self, frame, event, arg):
        if event != "call":
            return None
        back = frame.f_back
        inlib = env.is_lib_file(frame.f_code.co_filename)
        if not inlib and (back is None or not env.is_lib_file(back.f_code.co_filename)):
            return None
        if tracing():
            return None
        if frame.f_code.co_name in ("<module>", "<lambda>") and not inlib:
            return None
        k = self.n
        self.n += 1
        where = (back if back is not None and env.is_lib_file(back.f_code.co_filename) else frame).f_code.co_name
        if self.on_point is not None:
            self.on_point(where, frame.f_code.co_name)
        if self.raise_at is not None and k == self.raise_at and self.fired is None:
            self.fired = (where, frame.f_code.co_name)
            raise self.exc("injected")
        return None

    def __enter__(self):
        self.prev = sys.gettrace()
        sys.settrace(self.trace)
        return self

    def __exit__(self, *a):
        sys.settrace(self.prev)
        return False


def tracing():
    f = env.tf().inside_function
    t = sys.gettrace()
    sys.settrace(None)
    try:
        return f()
    finally:
        sys.settrace(t)


class FailingArray:
    """An array-like supplied by the user that fails when the library looks at it."""
    def __init__(self, exc):
        self.exc = exc

    def __array__(self, *a, **k):
        raise self.exc

    def __len__(self):
        raise self.exc

    def __iter__(self):
        raise self.exc

    def __getitem__(self, i):
        raise self.exc

    def __float__(self):
        raise self.exc

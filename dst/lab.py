"""A session on the real numerical library, driven by JSON operations with faults. Used by C07-C20."""
import contextlib

import numpy as np

from . import env, model, sched, seams
from .rng import nprand


class Outcome:
    """ok / error / interrupt, the value returned or raised, and what was injected."""
    def __init__(self):
        self.kind = "ok"
        self.value = None
        self.exc = None
        self.fired = None
        self.draws = 0
        self.ffts = 0
        self.calls = 0


EXC = {"MemoryError": MemoryError, "KeyboardInterrupt": KeyboardInterrupt, "ValueError": ValueError,
       "FloatingPointError": FloatingPointError, "RuntimeError": RuntimeError}


def draw_stream(op):
    """The outcome of the random source for one operation."""
    style, seed = op.get("draw", "random"), op.get("seed", 0)

    def draw(shape, n):
        if isinstance(style, (int, float)):
            return np.full(shape, float(style))
        if style == "zeros":
            return np.zeros(shape)
        if style == "ones":
            return np.full(shape, 1.0)
        if style == "half":
            return np.full(shape, 0.5)
        if style == "ramp":
            return (np.arange(int(np.prod(shape))).reshape(shape) % 97) / 97.0
        return nprand("draw", seed, n).random(shape)
    return draw


def aligned(v, to=64):
    raw = np.zeros(v.nbytes + to, dtype=np.uint8)
    off = -raw.ctypes.data % to
    out = raw[off:off + v.nbytes].view(v.dtype).reshape(v.shape)
    out[...] = v
    return out


def quantised(v, s):
    """Rounded to eighths if asked for: sums are then exact in any order, so that only the places distinguish two arrangements."""
    if not s.get("quant"):
        return v
    v = np.asarray(v)
    return np.round(v.real * 8) / 8 + 1j * np.round(v.imag * 8) / 8 if np.iscomplexobj(v) else np.round(v * 8) / 8


def moved(v, how):
    """The same values in other places."""
    if not how:
        return v
    v = np.asarray(v)
    if how == "lr":
        return v[:, ::-1].copy()
    if how == "ud":
        return v[::-1].copy()
    if how == "turn":
        return v[::-1, ::-1].copy()
    if how == "roll":
        return np.roll(v, (2, 3), (0, 1))
    if how == "inner":                  # two values change places in the middle
        v = v.copy()
        i, j = v.shape[0] // 2, v.shape[1] // 2
        v[i, j], v[i - 3, j + 2] = v[i - 3, j + 2], v[i, j]
        return v
    if how == "permute":
        return v.flat[nprand("permute", v.size).permutation(v.size)].reshape(v.shape)
    raise AssertionError(how)


def coordinate(v, form, lab):
    """The same number as another type."""
    if not form or not isinstance(v, (int, float)):
        return v
    whole = float(v).is_integer()
    if form == "numpy":
        return np.int64(v) if whole else np.float64(v)
    if form == "numpy32":
        return np.int32(v) if whole else np.float32(v)
    if form == "double":
        return np.float64(v)
    if form == "array0":
        return np.array(v)
    if form == "tensor":
        return lab.tf.constant(v, dtype=lab.fdtype)
    raise AssertionError(form)


def copy_of(x):
    return None if x is None else np.array(x, copy=True)


class Lab:
    def __init__(self, plan, bits=None, fft=None, seam=True, seed=None, result=None, lib=None):
        self.plan = plan
        self.bits = bits if bits is not None else plan.get("bits", 32)
        self.lib = lib if lib is not None else seams.fresh_library(self.bits, seam, seed, fft if fft is not None else plan.get("fft"))
        self.tf = env.tf()
        self.cdtype = np.complex64 if self.bits == 32 else np.complex128
        self.fdtype = np.float32 if self.bits == 32 else np.float64
        self.eps = 6e-8 if self.bits == 32 else 1.2e-16
        self.ordered = seam
        self.r = result
        self.slms, self.geo = {}, {}
        self.sims = {}
        self.profs = {}        # id -> library profile
        self.pspec = {}        # id -> current spec (leaf parameters up to date)
        self.hooks = seams.HOOKS
        only = plan.get("only")
        for i, s in enumerate(plan.get("slms", [])):
            if only is None or i in only:
                self.new_slm(i, s)
        for i, s in enumerate(plan.get("sims", [])):
            if only is None or s["slm"] in only:
                self.new_sim(i, s)
        for i, s in enumerate(plan.get("profs", [])):
            self.new_prof(i, s)
        self.arrs, self.aspec = {}, {}          # arrays owned by the user, passed by reference
        for i, s in enumerate(plan.get("arrs", [])):
            self.new_arr(i, s)

    # ------------------------------------------------------------------------------------------------------ objects
    def new_slm(self, i, s):
        lib = self.lib
        if s["kind"] == "dmd":
            self.slms[i] = lib.DMD(s["wl"], s["f"], s["p"], s["theta"], s["Nx"], s["Ny"], s["px"], negative_order=bool(s.get("neg")))
        elif s["kind"] == "lcos":
            self.slms[i] = lib.LCOS_SLM(s["wl"], s["f"], s["Nx"], s["Ny"], s["px"])
        else:
            raise AssertionError(s)
        self.geo[i] = model.Geometry(s)
        self.geo[i].spec = s

    def new_sim(self, i, s):
        slm = self.slms[s["slm"]]
        cls = self.lib.DMDSimulation if self.geo[s["slm"]].spec["kind"] == "dmd" else self.lib.SLMSimulation
        self.sims[i] = cls(slm, padding_x=s.get("padx", 0), padding_y=s.get("pady", 0))
        self.simspec = getattr(self, "simspec", {})
        self.simspec[i] = s

    def build(self, s):
        """Library object for a profile spec."""
        lib = self.lib
        if not isinstance(s, dict):
            v = model.number(s)
            return v
        t = s["t"]
        b = self.build
        if t == "ref":
            return self.profs[s["id"]]
        if t == "int":
            return int(s["v"])
        if t == "const":
            return lib.ConstantProfile(model.number(s["c"]))
        if t == "hg":
            return lib.HermiteGaussian(s["x0"], s["y0"], s["a"], s["w"], n=s.get("n", 0), m=s.get("m", 0))
        if t == "lg":
            return lib.LaguerreGaussian(s["x0"], s["y0"], s["a"], s["w"], l=s.get("l", 0), p=s.get("p", 0))
        if t == "sg":
            return lib.SuperGaussian(s["x0"], s["y0"], s["a"], s["w"], p=s.get("p", 1.0))
        if t == "zern":
            return lib.Zernike(s["a"], s["radius"], n=s["n"], m=s["m"], normalize=s.get("norm", True), extrapolate=s.get("extra", False))
        if t == "rectwin":
            return lib.RectangularWindowRectangle(s["x0"], s["y0"], s["wx"], s["wy"])
        if t == "circwin":
            return lib.RectangularWindowCircular(s["x0"], s["y0"], s["r"])
        if t == "add":
            return b(s["a"]) + b(s["b"])
        if t == "radd":
            return b(s["b"]) + b(s["a"])
        if t == "sub":
            return b(s["a"]) - b(s["b"])
        if t == "mul":
            return b(s["a"]) * b(s["b"])
        if t == "rmul":
            return b(s["b"]) * b(s["a"])
        if t == "div":
            return b(s["a"]) / b(s["b"])
        if t == "pow":
            return b(s["a"]) ** (b(s["b"]) if isinstance(s["b"], dict) else model.number(s["b"]))
        if t == "neg":
            return -b(s["a"])
        if t == "rotate":
            return b(s["a"]).rotate(s["theta"])
        if t == "shift":
            return b(s["a"]).shift(s["dx"], s["dy"])
        if t == "rescale_x":
            return b(s["a"]).rescale_x(s["m"])
        if t == "rescale_y":
            return b(s["a"]).rescale_y(s["m"])
        if t == "cplx":
            return b(s["a"]).as_complex_profile()
        raise AssertionError(t)

    def new_prof(self, i, s):
        self.profs[i] = self.build(s)
        self.pspec[i] = dict(s)

    def new_arr(self, i, s):
        """s: {"slm", "plane", "spec"} or {"slm", "noise": seed}"""
        self.aspec[i] = dict(s)
        self.arrs[i] = self.arr_content(s)

    def arr_content(self, s):
        if "noise" in s:
            g = self.geo[s["slm"]]
            r = nprand("arr", s["noise"])
            v = r.normal(size=(g.Ny, g.Nx))
            return v + 1j * r.normal(size=v.shape) if s.get("cplx") else v
        v = quantised(np.array(model.evaluate(s["spec"], *self.grid(s["slm"], s["plane"]), params=self.params)), s)
        return v.astype(complex) if s.get("cplx") else v

    def edit_arr(self, i, s):
        """The user overwrites his array in place, or changes a little of it."""
        if "tweak" in s:
            x, how, k = self.arrs[i], s["tweak"], s["k"]
            if how == "pixel":
                x.flat[k % x.size] = 2.0 * np.abs(x).max() + 1.0
            elif how == "neg":
                x *= -1
            elif how == "flip":
                x[...] = x[::-1, ::-1].copy()
            elif how == "swap":
                x.flat[[0, x.size // 2]] = x.flat[[x.size // 2, 0]]
                x[:] = np.roll(x, 1, axis=k % 2)
            elif how == "scale":
                x *= 1.25
            else:
                x[...] = moved(x, how)
            return
        s = dict(self.aspec[i], **s)
        self.arrs[i][...] = self.arr_content(s)
        self.aspec[i] = s

    def params(self, i):
        return self.pspec[i]

    def resolve(self, s):
        """The spec with all references replaced by their current values."""
        if isinstance(s, dict):
            if s.get("t") == "ref":
                return self.resolve(self.pspec[s["id"]])
            return {k: self.resolve(v) if isinstance(v, dict) else v for k, v in s.items()}
        return s

    # -------------------------------------------------------------------------------------------------- arguments
    def grid(self, slm, plane):
        g = self.geo[slm]
        return g.fourier_grid() if plane == "f" else g.image_grid()

    def value(self, a, slm, plane):
        """What an argument means, as a float64 / complex128 array on the modulator's grid (None if invalid)."""
        if a is None:
            return None
        if not isinstance(a, dict) or "as" not in a:
            a = {"as": "number", "v": a}
        how = a["as"]
        if how in ("bad", "fail"):
            return None
        if how == "number":
            g = self.geo[slm]
            return model.number(a["v"]) * np.ones((g.Ny, g.Nx))
        if how == "named":
            return np.array(self.arrs[a["id"]])
        if how == "copied":
            return np.array(a["data"])
        if how == "noise":                      # an arbitrary complex field
            g, r = self.geo[slm], nprand("noise", a["seed"])
            return r.normal(size=(g.Ny, g.Nx)) + 1j * r.normal(size=(g.Ny, g.Nx))
        v = model.evaluate(a["spec"], *self.grid(slm, plane), params=self.params)
        return moved(quantised(v, a), a.get("move")) if a.get("move") or a.get("quant") else v

    def arg(self, a, slm, plane, complex_=False):
        """The Python object handed to the library."""
        if a is None:
            return None
        if not isinstance(a, dict) or "as" not in a:
            a = {"as": "number", "v": a}
        how = a["as"]
        if how == "number":
            return model.number(a["v"])
        if how == "bad":
            g = self.geo[slm]
            return {"shape": np.ones((g.Ny + 1, g.Nx + 2)), "string": "beam", "none": None, "object": object(),
                    "list": [[1.0], [1.0, 2.0]], "transposed": np.ones((g.Nx, g.Ny + 3))}[a.get("what", "shape")]
        if how == "fail":
            return seams.FailingArray(EXC[a.get("exc", "ValueError")]("injected by the caller's array"))
        if how == "profile":
            return self.build(a["spec"]) if a["spec"].get("t") != "ref" else self.profs[a["spec"]["id"]]
        if how == "named":
            return self.arrs[a["id"]]
        v = self.value(a, slm, plane)
        if how == "tensor":
            return self.tf.constant(v.astype(self.cdtype if np.iscomplexobj(v) else self.fdtype))
        v = np.array(v)
        if how == "list":
            return v.tolist()
        if a.get("match"):                      # exactly the type and alignment the library works with internally
            return aligned(v.astype(self.cdtype if a["match"] == "c" else self.fdtype))
        if a.get("layout") == "F":
            v = np.asfortranarray(v)
        if a.get("f32"):
            v = v.astype(np.complex64 if np.iscomplexobj(v) else np.float32)
        return v

    # -------------------------------------------------------------------------------------------------- operations
    def call(self, op, fn, faults=True):
        """Run fn under the op's draws and faults."""
        out = Outcome()
        h = self.hooks
        h.n_fft = h.n_draw = 0
        h.draw_shapes = []
        fault = op.get("fault") if faults else None
        fired = []
        stream = draw_stream(op)

        def draw(shape, n):
            if fault and fault["kind"] == "rng" and n == fault["at"]:
                fired.append(("rng", fault["exc"]))
                raise EXC[fault["exc"]]("injected: random source")
            return stream(shape, n)

        def fft(name, n):
            if fault and fault["kind"] == "fft" and n == fault["at"]:
                fired.append(("fft", fault["exc"]))
                raise EXC[fault["exc"]]("injected: transform")
            hook = getattr(self, "fft_hook", None)
            if hook:
                hook(name, n)
        h.draw, h.fft = draw, fft
        points = seams.CallPoints(fault["at"], EXC[fault["exc"]]) if fault and fault["kind"] == "call" else None
        try:
            # the operations of a TensorFlow function one after another: independent transforms would otherwise meet the faults in any order
            with sched.one_at_a_time() if self.ordered else contextlib.nullcontext():
                if points is not None:
                    with points:
                        out.value = fn()
                else:
                    out.value = fn()
        except KeyboardInterrupt as e:
            out.kind, out.exc = "interrupt", e
        except Exception as e:
            out.kind, out.exc = "error", e
        finally:
            h.draw = h.fft = None
        out.draws, out.ffts = h.n_draw, h.n_fft
        out.shapes = list(h.draw_shapes)
        if points is not None:
            out.calls = points.n
            if points.fired:
                fired.append(("call", fault["exc"]))
        out.fired = fired[0] if fired else None
        if out.fired is None and op.get("badarg"):
            out.fired = ("argument", "")
        if self.r is not None:
            self.r.count("ops")
            self.r.count("op:" + op["op"])
            if out.fired:
                self.r.count("fault:%s:%s" % out.fired)
            if out.kind != "ok":
                self.r.count("failed_calls")
        out.exc_type = type(out.exc).__name__ if out.exc is not None else None
        return out

    def thunk(self, op):
        """The library call an operation stands for (arguments are built now, outside the call)."""
        t = op["op"]
        if t in ("calc", "grating", "patch", "on", "off", "hologram", "reset", "assign"):
            slm = self.slms[op["slm"]]
            k = op["slm"]
        if t == "calc":
            kw = dict(op.get("kw", {}))
            if "signal_window" in kw:
                kw["signal_window"] = self.arg(kw["signal_window"], k, "i")
            inp, tgt = self.arg(op["input"], k, "f"), self.arg(op["target"], k, "i")
            win = self.arg(op.get("window"), k, "f")
            self.last_args = [inp, tgt, win, kw]
            return lambda: slm.calculate_dmd_state(inp, tgt, method=op.get("method", "random"), window=win, **kw)
        if t in ("grating", "patch"):
            kw = dict(op.get("kw", {}))
            for q, plane in (("input_profile", "f"), ("signal_window", "i")):
                if q in kw:
                    v = self.value(kw[q], k, plane)
                    kw[q] = self.tf.constant(v.astype(self.cdtype)) if v is not None else self.arg(kw[q], k, plane)
            amp, pin, pout = self.arg(op["amp"], k, "f"), self.arg(op["pin"], k, "f"), self.arg(op["pout"], k, "f")
            self.last_args = [amp, pin, pout, kw]
            if t == "grating":
                return lambda: slm.set_dmd_grating_state(amp=amp, phase_in=pin, phase_out=pout, method=op.get("method", "random"), **kw)
            i, j, d = (coordinate(op[c], op.get("coord"), self) for c in "ijd")
            return lambda: slm.circular_patch(i, j, amp, pin, pout, d, method=op.get("method", "random"), **kw)
        if t == "on":
            return slm.set_dmd_state_on
        if t == "off":
            return slm.set_dmd_state_off
        if t == "assign":
            arr = self.assigned(op)
            self.last_args = [arr]

            def assign():
                if self.geo[k].spec["kind"] == "dmd":
                    slm.dmd_state = arr
                else:
                    slm.slm_state = arr
            return assign
        if t == "reset":
            return slm.reset_slm_state
        if t == "hologram":
            kw = dict(op.get("kw", {}))
            if "signal_window" in kw:
                kw["signal_window"] = self.arg(kw["signal_window"], k, "i")
            inp, tgt = self.arg(op["input"], k, "f"), self.arg(op["target"], k, "i")
            self.last_args = [inp, tgt, kw]
            return lambda: slm.calculate_hologram(inp, tgt, method=op.get("method", "gs"), **kw)
        if t in ("prop", "block", "clear"):
            sim = self.sims[op["sim"]]
        if t == "prop":
            inp = self.arg(op["input"], self.simspec[op["sim"]]["slm"], "f")
            self.last_args = [inp]
            return lambda: sim.propagate_to_image(inp)
        if t == "block":
            return (lambda: sim.block_zeroth_order()) if op.get("r") is None else (lambda: sim.block_zeroth_order(r=op["r"]))
        if t == "clear":
            return sim.clear
        if t == "setp":
            p = self.profs[op["prof"]]
            v = self.param_value(op)

            def setp():
                setattr(p, op["param"], v)
            return setp
        if t == "fft":
            def switch():
                b = self.lib.BACKEND
                b.fft_backend = b.FFT_BACKEND_TENSORFLOW if op["to"] == "tf" else b.FFT_BACKEND_NUMPY
            return switch
        raise AssertionError(t)

    def param_value(self, op):
        v = op["value"]
        if v == "bad":
            return "not a number"
        if v == "badshape":
            return np.ones((2, 2))
        if v == "none":
            return None
        v = model.number(v)
        form = op.get("form")
        if form == "numpy":
            return self.fdtype(v) if not isinstance(v, complex) else self.cdtype(v)
        if form == "array0":
            return np.array(v)
        if form == "tensor":
            return self.tf.constant(v, dtype=self.cdtype if isinstance(v, complex) else self.fdtype)
        return v

    def assigned(self, op):
        g = self.geo[op["slm"]]
        r = nprand("assign", op.get("seed", 0))
        if g.spec["kind"] == "lcos":
            return r.uniform(-3.1, 3.1, (g.Ny, g.Nx))
        if op.get("gray"):
            return r.random((g.Ny, g.Nx))
        if op.get("u8"):
            return (r.random((g.Ny, g.Nx)) < 0.5).astype(np.uint8)
        return r.random((g.Ny, g.Nx)) < 0.5

    def do(self, op, faults=True):
        fn = self.thunk(op)
        out = self.call(op, fn, faults)
        if out.kind == "ok" and op["op"] == "setp":
            self.pspec[op["prof"]] = dict(self.pspec[op["prof"]], **{op["param"]: op["value"]})
        return out

    # -------------------------------------------------------------------------------------------------- observation
    def pattern(self, k):
        slm = self.slms[k]
        return slm.dmd_state if self.geo[k].spec["kind"] == "dmd" else slm.slm_state

    def snap_sim(self, i):
        """All public results of a simulation (None where absent)."""
        s = self.sims[i]
        out = {}
        for name in ("input_field", "output_field", "image_plane_field", "input_intensity", "output_intensity", "image_plane_intensity"):
            out[name] = copy_of(getattr(s, name))
        for name in ("get_input_power", "get_output_power", "get_image_plane_power"):
            try:
                v = getattr(s, name)()
                out[name] = None if v is None else float(v)
            except TypeError:
                out[name] = None
        return out


def same(a, b):
    """Bit-identical (or both absent)."""
    if a is None or b is None:
        return a is None and b is None
    a, b = np.asarray(a), np.asarray(b)
    return a.shape == b.shape and a.dtype == b.dtype and (a.tobytes() == b.tobytes() or a.dtype.kind in "fc" and np.array_equal(a, b, equal_nan=True))


def same_snap(a, b):
    return a.keys() == b.keys() and all(same(a[k], b[k]) for k in a)


def close(a, b, tol, scale=None):
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return False
    s = scale if scale is not None else max(1e-300, float(np.max(np.abs(b))) if b.size else 1.0)
    if not np.all(np.isfinite(a)):
        return False
    return bool(np.max(np.abs(a - b)) <= tol * s) if a.size else True


def summary(a):
    if a is None:
        return "None"
    a = np.asarray(a)
    import hashlib
    return "%s%s:%s" % (a.dtype, a.shape, hashlib.sha1(np.ascontiguousarray(a).tobytes()).hexdigest()[:12])

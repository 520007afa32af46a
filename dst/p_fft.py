"""C16: the FFT implementation is switched between and inside calculations."""
import threading

import numpy as np

from . import env, gen, lab, seams
from .core import Property, Result
from .p_update import describe
from .rng import rand

SIZES = [(24, 16), (16, 24), (20, 20), (21, 16), (15, 23), (17, 17), (40, 8), (9, 32)]


class TfTicks:
    """tf.signal.fft2d / ifft2d report to a hook before they run (in graphs too)."""

    def __init__(self):
        self.hook = None
        self.n = 0

    def install(self):
        tf = env.tf()
        self.orig = {}
        for name in ("fft2d", "ifft2d"):
            f = self.orig[name] = getattr(tf.signal, name)

            @tf.autograph.experimental.do_not_convert
            def wrapper(x, name=None, _f=f, _name=name):
                def tick(v):
                    self.n += 1
                    if self.hook:
                        self.hook(_name)
                    return v
                y = tf.numpy_function(tick, [x], x.dtype, stateful=True)
                y.set_shape(x.shape)
                return _f(y)
            setattr(tf.signal, name, wrapper)

    def remove(self):
        for name, f in self.orig.items():
            setattr(env.tf().signal, name, f)


class C16(Property):
    id = "C16"
    quick_runs = 170
    thorough_runs = 4500
    collect_every = 4
    rechecks = recheck_workers = 4
    technique = "deterministic simulation: a scheduler switches the FFT implementation between calls and at chosen transforms inside running calculations; the unswitched calculation is the oracle"
    rule = ("A case is a seeded session of 10-30 operations (holograms of up to two methods, propagations) on a DMD, an LCOS modulator and simulations of various sizes; before and "
            "inside operations (at chosen transforms, from the same or from another thread) the implementation is switched up to five times, some calculations fail at a "
            "transform. Each result is compared with the same operation run on each implementation alone. Non-trivial: a switch landed inside a calculation or two between.")
    real = ["pySLM2._backend, pySLM2._lib, pySLM2.slm, pySLM2.simulation", "numpy FFT", "TensorFlow FFT"]
    stub = ["random source (scripted)", "the points at which the other task switches", "failures"]
    assumptions = ["single precision: binary patterns may differ in 0.3% of the pixels (iterative methods: 3%), phases in 3%, fields by 1e-5; double precision: 0.3% / 1% / 1% / 1e-12 (measured on this tree: none, 3e-7, 5e-16)"]
    state_measure = "hash of (operation, method, size, precision, schedule of switches that landed)"
    level_note = ("Seeded search over switch schedules at transform granularity in both directions; results are compared with both unswitched runs, the implementation actually "
                  "entered is observed at the numpy seam. Trusts that rounding differences stay within the stated bounds.")

    def generate(self, seed, tier):
        r = rand("C16", seed)
        size = r.choice(SIZES)
        slms = [gen.slm_spec(r, "dmd", sizes=[size], mid=0.05, big=0.015), gen.slm_spec(r, "lcos", sizes=[r.choice(SIZES)], mid=0.05, big=0.015)]
        sims = [{"slm": 0, "padx": r.choice([0, 1, 4]), "pady": r.choice([0, 3])}, {"slm": 1, "padx": r.choice([0, 2]), "pady": 0}]
        bits = r.choice([32, 64])
        plan = {"bits": bits, "fft": r.choice([None, "np", "tf"]), "slms": slms, "sims": sims}
        kinds = r.choice([["random", "prop0"], ["ifta", "prop0"], ["ifta", "gs"], ["ideal", "ifta"], ["gs", "prop1"], ["mraf", "gs"], ["simple", "gs"], ["random", "mraf"]])
        ops = []
        for _ in range(gen.cap(r.randint(10, 30), slms)):
            k = r.choice(kinds)
            if k.startswith("prop"):
                i = int(k[4])
                op = {"op": "prop", "sim": i, "input": gen.as_arg(r, gen.beam(r, slms[i]), "array"), "seed": r.randrange(10 ** 9)}
                if r.random() < 0.2:
                    op["input"] = {"as": "noise", "seed": r.randrange(10 ** 6)}
            elif k in ("gs", "mraf"):
                op = gen.hologram(r, 1, slms[1], how="array")
                while op["method"] != k:
                    op = gen.hologram(r, 1, slms[1], how="array")
                op["kw"]["N"] = r.randint(1, 20 if bits == 64 else 5)
            else:
                op = gen.calc(r, 0, slms[0], (k,), "array")
                op.pop("window", None)
                if k == "ifta":
                    op["kw"]["N"] = r.randint(1, 20 if bits == 64 else 6)
            if op["op"] != "prop":
                op["input"] = gen.as_arg(r, gen.bright_beam(r, slms[op["slm"]]), "array")
            iterative = k in ("gs", "mraf", "ifta")
            op["switch"] = []
            q = r.random()
            if q < 0.5:
                at = sorted(r.sample(range(0, 2 * op["kw"]["N"] + 2 if iterative else 2), r.randint(1, 4 if iterative else 1)))
                op["switch"] = [{"at": x, "to": r.choice(["np", "tf", "flip", "flip", "flip"]), "thread": r.random() < 0.3} for x in at]
            if r.random() < 0.45:
                op["before"] = r.choice(["np", "tf", "flip"])
            if r.random() < 0.12:
                op["refused"] = r.choice(["text", "none", "float", "list", "object", "nan", "big", "negative", "numpy"])
            if r.random() < 0.12:
                op["fail"] = {"at": r.randrange(6 if iterative else 1), "exc": r.choice(["MemoryError", "RuntimeError", "ValueError"])}
            ops.append(op)
        plan["ops"] = ops
        return plan

    def shrink_op(self, op):
        for i in range(len(op["switch"])):
            yield dict(op, switch=op["switch"][:i] + op["switch"][i + 1:])
        for k in ("before", "fail", "refused"):
            if k in op:
                yield {q: v for q, v in op.items() if q != k}

    def execute(self, plan):
        res = Result()
        seams.install()
        ticks = TfTicks()
        ticks.install()
        try:
            self.session(plan, res, ticks)
        finally:
            ticks.remove()
        return res

    def select(self, a, to, thread=False):
        B = a.lib.BACKEND
        if to == "flip":
            to = "tf" if self.now == "np" else "np"
        v = B.FFT_BACKEND_TENSORFLOW if to == "tf" else B.FFT_BACKEND_NUMPY
        if thread:
            def go():
                B.fft_backend = v
            t = threading.Thread(target=go)
            t.start()
            t.join()
        else:
            B.fft_backend = v
        self.now = to

    def refuse(self, a, what, res, where):
        """A choice that is refused with an error leaves the one before in force."""
        v = {"text": "no such implementation", "none": None, "float": 0.5, "list": [0, 1, 1], "object": object(), "nan": float("nan"),
             "big": 7, "negative": -1, "numpy": np.int64(3)}[what]
        try:
            a.lib.BACKEND.fft_backend = v
        except Exception:
            res.count("fault:refused_choice")
            self.in_force(a, res, "%s, after the choice %r was refused" % (where, what))
        else:
            self.select(a, self.now)

    def in_force(self, a, res, where):
        B = a.lib.BACKEND
        v = int(np.asarray(B.fft_backend))
        want = B.FFT_BACKEND_TENSORFLOW if self.now == "tf" else B.FFT_BACKEND_NUMPY
        if v != want:
            res.violate("not_in_force", "%s: the backend reports implementation %d although %d was selected last" % (where, v, want))

    def session(self, plan, res, ticks):
        a = lab.Lab(plan, result=res)
        B = a.lib.BACKEND
        self.now = plan["fft"] or ("np" if int(np.asarray(B.fft_backend)) == B.FFT_BACKEND_NUMPY else "tf")
        self.in_force(a, res, "at the start")
        landed_total = between = 0
        live = None                 # do calculations on the numpy implementation pass the numpy seam at all?
        for n, op in enumerate(plan["ops"]):
            where = "op %d %s" % (n, describe(op))
            if op.get("before"):
                self.select(a, op["before"])
                between += 1
                self.in_force(a, res, where)
            if op.get("refused"):
                self.refuse(a, op["refused"], res, where)
            start = self.now
            base = {k: v for k, v in op.items() if k not in ("switch", "before", "fail", "refused")}
            count, landed, used = [0], [], {"np": 0, "tf": 0}

            def transform(impl, fail=True):
                c = count[0]
                count[0] += 1
                used[impl] += 1
                for s in op["switch"]:
                    if s["at"] == c:
                        self.select(a, s["to"], s["thread"])
                        landed.append((c, self.now))
                if fail and op.get("fail") and op["fail"]["at"] == c:
                    res.count("fault:fft:" + op["fail"]["exc"])
                    raise lab.EXC[op["fail"]["exc"]]("injected: transform")
            state = self.keep(a, op)
            a.fft_hook = lambda name, k: transform("np")
            ticks.hook = lambda name: transform("tf")
            out = a.do(base)
            a.fft_hook = ticks.hook = None
            self.in_force(a, res, where)
            for s in landed:
                res.count("fault:switch_inside:" + s[1])
            landed_total += len(landed)
            failed = out.kind != "ok"
            if failed and not (op.get("fail") and count[0] > op["fail"]["at"]):
                res.violate("raises", "%s raised %s with switches at %s: %s" % (where, out.exc_type, landed, str(out.exc)[:300]))
            if not failed:
                if not landed and sum(used.values()):
                    if start == "np" and used["np"]:
                        live = True
                    if start == "np" and not used["np"]:
                        if live:
                            res.violate("not_in_force", "%s: numpy is selected but the calculation does not use it" % where)
                    if start == "tf" and used["np"]:
                        res.violate("not_in_force", "%s: TensorFlow is selected but the calculation uses numpy" % where)
                got = self.result(a, op, out)
                last = self.now
                for impl in ("np", "tf"):
                    self.restore(a, op, state)
                    self.select(a, impl)
                    o2 = a.do(base)
                    if o2.kind != "ok":
                        res.violate("raises", "%s raised %s on %s alone: %s" % (where, o2.exc_type, impl, str(o2.exc)[:200]))
                        break
                    why = compare(got, self.result(a, op, o2), a.bits, op)
                    if why:
                        res.violate("result_depends_on_fft", "%s started on %s with switches at %s differs from the calculation on %s alone: %s" % (where, start, landed, impl, why))
                        break
                    res.count("comparisons")
                self.select(a, last)
            res.state(op["op"], op.get("method"), plan["bits"], start, tuple(landed), failed)
            res.record(n, failed, count[0], landed)
            if res.viol:
                break
        res.nontrivial = landed_total > 0 or between >= 2

    def keep(self, a, op):
        return None

    def restore(self, a, op, state):
        pass

    def result(self, a, op, out):
        if op["op"] == "prop":
            return {k: v for k, v in a.snap_sim(op["sim"]).items() if v is not None}
        v = {"pattern": np.array(a.pattern(op["slm"]), copy=True)}
        if out.value is not None:
            v["efficiency"] = np.float64(out.value)
        return v


def compare(u, v, bits, op):
    for k in u:
        x, y = np.asarray(u[k]), np.asarray(v[k])
        if x.shape != y.shape or x.dtype != y.dtype:
            return "%s: %s%s against %s%s" % (k, x.dtype, x.shape, y.dtype, y.shape)
        if not np.array_equal(np.isfinite(x), np.isfinite(y)):
            return "%s: not finite at other points" % k
        it = op.get("method") in ("ifta", "gs", "mraf")
        if x.dtype == bool:
            d, lim = int((x != y).sum()), ((0.03 if it else 0.003) if bits == 32 else (0.01 if it else 0.003)) * x.size
            if d > max(2, lim):
                return "%s: %d of %d pixels differ" % (k, d, x.size)
            continue
        m = np.isfinite(x)
        x, y = x[m], y[m]
        if not x.size:
            continue
        if op["op"] == "hologram":
            d = np.abs(np.exp(1j * x.astype(float)) - np.exp(1j * y.astype(float)))
            bad, lim = int((d > (2e-2 if bits == 32 else 1e-7)).sum()), (0.03 if bits == 32 else 0.01) * x.size
            if bad > max(2, lim):
                return "%s: %d of %d phases differ (median %.2g)" % (k, bad, x.size, np.median(d))
            continue
        scale = max(float(np.abs(y).max()), 1e-30 if bits == 32 else 1e-290)
        d = float(np.abs(x - y).max()) / scale
        bad = np.abs(x - y) > (1e-5 if bits == 32 else 1e-12) * scale
        if bad.sum() > (0.005 * x.size if k == "pattern" else 0):
            return "%s: differs by up to %.3g of its largest value" % (k, d)
    return None


PROPS = {"C16": C16}

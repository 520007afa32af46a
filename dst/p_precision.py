"""C15: the precision of a session."""
import numpy as np

from . import env, gen, lab, model, seams
from .core import Property, Result
from .p_profile import C13, is_complex
from .p_simulation import Reference, check_snapshot
from .rng import nprand, rand

# how a user may spell a precision: the documented constants, and spellings the library may or may not understand
DOCUMENTED = ["T32", "T64"]
SPELLED = ["str32", "str64", "np32", "np64"]
INVALID = ["abc", "tf.float16", "tf.bfloat16", "tf.int32", "tf.int64", "tf.complex64", "tf.complex128", "tf.bool", "None", "np.float16", "np.int64", "complex", "object", "list"]


def spelled(lib, name):
    tf = env.tf()
    return {"T32": lib.BACKEND.TENSOR_32BITS, "T64": lib.BACKEND.TENSOR_64BITS, "str32": "float32", "str64": "float64", "np32": np.float32, "np64": np.float64,
            "abc": "abc", "tf.float16": tf.float16, "tf.bfloat16": tf.bfloat16, "tf.int32": tf.int32, "tf.int64": tf.int64, "tf.complex64": tf.complex64,
            "tf.complex128": tf.complex128, "tf.bool": tf.bool, "None": None, "np.float16": np.float16, "np.int64": np.int64, "complex": complex,
            "object": object(), "list": [32]}[name]


FIRST = ["dmd", "dmd_theta", "slm_grid", "slm_image_grid", "profile", "window", "zernike", "lcos_sample", "lcos_hologram", "sim_grid", "sim_prop", "analysis", "combine", "const"]


class C15(Property):
    id = "C15"
    quick_runs = 260
    thorough_runs = 6000
    collect_every = 4
    rechecks = recheck_workers = 4
    technique = "deterministic simulation of session orders: configuration attempts before, during and after the first (possibly failing) use, judged on every array's precision and accuracy"
    rule = ("A case is a seeded session: up to five attempts to choose the precision (valid, otherwise spelled, invalid), a first use of one of 14 kinds (one in four interrupted "
            "or given a bad argument), then 8-20 operations of up to four kinds with arguments of either precision, attempts to change the precision between them and from "
            "inside a running transform. Non-trivial: at least one late attempt and five arrays judged.")
    real = ["pySLM2 (all numerical modules)", "TensorFlow kernels", "numpy FFT"]
    stub = ["random source (scripted)", "failures"]
    assumptions = ["after a first use that failed, choosing the precision may be accepted or refused; if accepted, everything must have it",
                   "spellings other than the documented constants may be accepted or refused"]
    state_measure = "hash of (attempts before, first use, how it ended, operation, late attempt, precision)"
    level_note = ("Seeded search; every array's type and its distance from a float64 reference (64 bit: about 1e-11 of the largest value) are judged, so a single-precision "
                  "constant anywhere in the pipeline shows. Analysis results are judged by value only (numpy promotes them).")

    def generate(self, seed, tier):
        r = rand("C15", seed)
        before = []
        for _ in range(r.choice([0, 1, 1, 2, 3, 5])):
            before.append(r.choice(["T64", "T64", "T64", "T32", r.choice(SPELLED), r.choice(INVALID), r.choice(INVALID)]))
        slms = [gen.slm_spec(r, "dmd", sizes=[(20, 14), (14, 20), (16, 16), (21, 13)]), gen.slm_spec(r, "lcos", sizes=[(20, 14), (14, 20), (15, 17)])]
        sims = [{"slm": 0, "padx": r.choice([0, 2]), "pady": r.choice([0, 3])}, {"slm": 1, "padx": 0, "pady": r.choice([0, 1])}]
        profs = [gen.leaf(r, slms[0], "f", kinds=[t]) for t in r.sample(["hg", "sg", "lg", "zern", "rectwin", "circwin", "const"], 2)]
        first = {"op": r.choice(FIRST), "late": r.random() < 0.6}
        if r.random() < 0.25:
            first["fault"] = gen.call_fault(r, 4)
            first["late"] = True
        kinds = r.sample(["eval", "sample", "calc", "grating", "patch", "ifta", "hologram", "prop0", "prop1", "grids", "analysis", "setp", "random"], r.choice([3, 4]))
        ops = []
        for _ in range(r.randint(8, 20)):
            ops.append(self.random_op(r, r.choice(kinds), slms, profs))
        plan = {"before": before, "first": first, "fft": r.choice(["np", "tf", None]), "slms": slms, "sims": sims, "profs": profs, "ops": ops}
        return plan

    def random_op(self, r, kind, slms, profs):
        op = {"op": kind, "seed": r.randrange(10 ** 9)}

        def arg(k, plane, spec):
            a = {"as": r.choice(["array", "array", "tensor32", "tensor64"]), "spec": spec}
            if r.random() < 0.3:
                a["f32"] = True
            return a
        s = slms[0]
        if kind == "eval":
            op.update(prof=r.randrange(len(profs)), how=r.choice(["grid", "points", "list", "broadcast", "scalar", "slm_f", "slm_i"]), slm=0)
        elif kind == "sample":
            k = r.randrange(2)
            q = r.random()
            if q < 0.3:
                a = {"as": "number", "v": r.choice([0.1, 1 / 3, 2, [0.1, 0.7]])}
            else:
                a = arg(k, "f", gen.leaf(r, slms[k], "f"))
            op.update(slm=k, arg=a, cplx=r.random() < 0.5 or (isinstance(a.get("v"), list)))
        elif kind in ("calc", "ifta", "random"):
            m = {"calc": "ideal", "ifta": "ifta", "random": "random"}[kind]
            o = gen.calc(r, 0, s, (m,), "array")
            o.pop("window", None)
            o["input"], o["target"] = arg(0, "f", o["input"]["spec"]), arg(0, "i", o["target"]["spec"])
            op = dict(o, judge=kind)
        elif kind in ("grating", "patch"):
            o = gen.grating(r, 0, s, ("ideal",), "array")
            if kind == "patch":
                o = gen.patch(r, 0, s, ("ideal",), "array")
            op = dict(o, judge=kind)
        elif kind == "hologram":
            o = gen.hologram(r, 1, slms[1], nmax=4, how="array")
            o.update(method="gs", kw={"N": r.randint(1, 4)})
            o["input"] = arg(1, "f", o["input"]["spec"])
            op = dict(o, judge="hologram")
        elif kind in ("prop0", "prop1"):
            k = int(kind[4])
            op = {"op": "prop", "judge": "prop", "sim": k, "input": arg(k, "f", gen.beam(r, slms[k])), "seed": op["seed"], "assign": r.random() < 0.5}
            if k == 0:
                op["block"] = r.random() < 0.3
        elif kind == "grids":
            op.update(slm=r.randrange(2))
        elif kind == "analysis":
            op.update(radius=r.choice([5, 6.5, 8, 100]), num=r.choice([3, 5, 6]), extra=r.random() < 0.4, trivial=r.random() < 0.4, defocus=r.random() < 0.5,
                      rec=r.random() < 0.5, f32=r.random() < 0.3, shape=r.choice([[14, 17], [15, 12]]))
        elif kind == "setp":
            i = r.randrange(len(profs))
            op.update(prof=i, param={"rectwin": "x0", "circwin": "x0"}.get(profs[i]["t"], "c" if profs[i]["t"] == "const" else "a"), value=r.choice([0.1, 1 / 3, 0.7000000001]))
            if isinstance(profs[i].get("c"), list):
                op["value"] = [0.1, 1 / 3]
            if profs[i]["t"] in ("rectwin", "circwin"):
                op["value"] = op["value"] * 1e-5
            if profs[i]["t"] == "lg":
                op.update(op="eval", how="grid", slm=0)
        q = r.random()
        if q < 0.35:
            op["late"] = r.choice(["T32", "T64", "T32", "T64", r.choice(SPELLED), r.choice(INVALID)])
            if kind in ("calc", "ifta", "hologram", "prop0", "prop1") and r.random() < 0.5:
                op["during"] = True
        if r.random() < 0.1 and kind in ("calc", "ifta", "hologram", "prop0", "prop1"):
            op["fault"] = gen.call_fault(r, 16)
        return op

    def shrink(self, plan):
        for cand in super().shrink(plan):
            yield cand
        for i in range(len(plan["before"])):
            yield dict(plan, before=plan["before"][:i] + plan["before"][i + 1:])
        if plan["first"].get("fault"):
            yield dict(plan, first={k: v for k, v in plan["first"].items() if k != "fault"})

    def shrink_op(self, op):
        for k in ("late", "during", "fault"):
            if k in op:
                yield {q: v for q, v in op.items() if q != k}

    # ----------------------------------------------------------------------------------------------------- execution
    def execute(self, plan):
        res = Result()
        lib = seams.fresh_library(32, True, None, plan["fft"])
        B = lib.BACKEND
        bits = 32
        for name in plan["before"]:
            bits = self.attempt_early(lib, name, bits, res, "before the first use")
        ended = self.first_use(lib, plan, res)
        late = 0
        if plan["first"]["late"]:
            want = "T32" if bits == 64 else "T64"
            if ended == "ok":
                self.attempt_late(lib, want, bits, res, "right after the first use (%s)" % plan["first"]["op"])
                late += 1
            else:
                try:
                    B.dtype = spelled(lib, want)
                    bits = 96 - bits
                    res.count("accepted_after_failed_first_use")
                except KeyboardInterrupt:
                    raise
                except Exception:
                    res.count("refused_after_failed_first_use")
        res.state(tuple(plan["before"]), plan["first"]["op"], ended, bits)
        if res.viol:
            return res
        self.name = "float%d" % bits
        a = lab.Lab(plan, bits=bits, lib=lib, result=res)
        if a.aspec:
            raise AssertionError
        self.judged = 0
        self.published(lib, bits, res, "after the objects are made")
        for n, op in enumerate(plan["ops"]):
            where = "op %d %s in a %d bit session" % (n, op.get("judge", op["op"]), bits)
            if op.get("late") and not op.get("during"):
                self.attempt_late(lib, op["late"], bits, res, where)
                late += 1
            if op.get("during"):
                tries = []

                def hook(name, k):
                    if not tries:
                        tries.append(1)
                        self.attempt_late(lib, op["late"], bits, res, where + ", during a transform")
                a.fft_hook = hook
            try:
                self.one(a, op, res, where)
            finally:
                a.fft_hook = None
            late += bool(op.get("during"))
            res.state(op.get("judge", op["op"]), op.get("late"), bool(op.get("during")), bits, plan["fft"])
            if res.viol:
                break
            self.published(lib, bits, res, where)
        res.count("late_attempts", late)
        res.count("arrays_judged", self.judged)
        res.nontrivial = late >= 1 and self.judged >= 5
        return res

    def published(self, lib, bits, res, where):
        B = lib.BACKEND
        got = (np.dtype(B.dtype.as_numpy_dtype), np.dtype(B.dtype_complex.as_numpy_dtype))
        want = (np.dtype("float%d" % bits), np.dtype("complex%d" % (2 * bits)))
        if got != want:
            res.violate("precision_changed", "%s: the backend reports %s / %s instead of %s / %s" % (where, *got, *want))

    def attempt_early(self, lib, name, bits, res, where):
        try:
            lib.BACKEND.dtype = spelled(lib, name)
        except Exception as e:
            if name in DOCUMENTED:
                res.violate("early_refused", "%s: choosing %s is refused with %s" % (where, name, type(e).__name__))
            res.count("fault:invalid_choice:" if name in INVALID else "early_refused")
            return bits
        if name in INVALID:
            res.violate("invalid_accepted", "%s: the invalid precision %s is accepted" % (where, name))
            return bits
        res.count("early_accepted")
        return 64 if name.endswith("64") else 32

    def attempt_late(self, lib, name, bits, res, where):
        same = name not in INVALID and name.endswith(str(bits))
        try:
            lib.BACKEND.dtype = spelled(lib, name)
        except Exception:
            res.count("fault:late_choice:")
            return
        if not same:
            res.violate("late_accepted", "%s: changing the precision to %s after the first use is accepted" % (where, name))

    def first_use(self, lib, plan, res):
        """One use of a fresh package; 'ok' or how it failed."""
        f, L = plan["first"], 1e-4
        what = f["op"]
        slm = lambda: lib.LCOS_SLM(500e-9, 0.1, 12, 10, 1e-5)

        def use():
            if what == "dmd":
                d = lib.DMD(500e-9, 0.1, 4, 0.3, 12, 10, 1e-5)
                d.set_dmd_grating_state(method="ideal")
            elif what == "dmd_theta":
                float(lib.DMD(500e-9, 0.1, 4, 0.3, 12, 10, 1e-5).theta)
            elif what == "slm_grid":
                slm().fourier_plane_grid
            elif what == "slm_image_grid":
                slm().image_plane_grid
            elif what == "profile":
                lib.HermiteGaussian(0, 0, 1, L)(np.zeros(3), np.zeros(3))
            elif what == "window":
                lib.RectangularWindowCircular(0, 0, L)(np.zeros(3), np.zeros(3))
            elif what == "zernike":
                lib.Zernike(1.0, L, 2, 0)(np.zeros(3), np.zeros(3))
            elif what == "lcos_sample":
                slm().profile_to_tensor(np.ones((10, 12)), complex=True)
            elif what == "lcos_hologram":
                slm().calculate_hologram(np.ones((10, 12)), np.ones((10, 12)), N=1)
            elif what == "sim_grid":
                lib.SLMSimulation(slm(), 1, 2).image_plane_padded_grid
            elif what == "sim_prop":
                lib.SLMSimulation(slm()).propagate_to_image(1.0)
            elif what == "analysis":
                lib.zernike_decomposition(np.ones((9, 9)), 4, 1)
            elif what == "combine":
                (lib.ConstantProfile(1.0) + 2.0)(np.zeros(2), np.zeros(2))
            elif what == "const":
                lib.ConstantProfile(2.0)(0.0, 0.0)
        points = seams.CallPoints(f["fault"]["at"], lab.EXC[f["fault"]["exc"]]) if f.get("fault") else None
        try:
            if points:
                with points:
                    use()
            else:
                use()
        except (Exception, KeyboardInterrupt) as e:
            if points and points.fired:
                res.count("fault:call:" + f["fault"]["exc"])
                return "failed"
            res.violate("raises", "the first use of the package (%s) raised %s: %s" % (what, type(e).__name__, str(e)[:200]))
            return "raised"
        return "ok"

    # -- judged operations
    def arr(self, res, name, got, want, a, where, tol=None, cplx=None, scale=None, loose=0.0):
        """Type and accuracy of one computed array."""
        got, want = np.asarray(got), np.asarray(want)
        self.judged += 1
        res.record(name, lab.summary(got))
        kind = "complex" if (np.iscomplexobj(want) if cplx is None else cplx) else "float"
        dt = np.dtype(kind + str(a.bits * (2 if kind == "complex" else 1)))
        if got.dtype != dt:
            res.violate("wrong_precision", "%s: %s has type %s instead of %s" % (where, name, got.dtype, dt))
            return
        if got.shape != want.shape:
            res.violate("wrong_value", "%s: %s has shape %s instead of %s" % (where, name, got.shape, want.shape))
            return
        tol = tol if tol is not None else 3e-4 if a.bits == 32 else 1e-11
        scale = scale or max(float(np.abs(want).max()), 1e-300)
        d = np.abs(got - want)
        if not (d <= tol * scale + loose).all():
            res.violate("inaccurate", "%s: %s is off by up to %.3g of its largest value" % (where, name, float(np.nanmax(d)) / scale))

    def given(self, a, op, f, k, plane):
        """The argument object, and what it means exactly."""
        s = op[f]
        if s["as"] in ("tensor32", "tensor64", "array") and "spec" in s:
            v = np.asarray(a.value({"as": "array", "spec": s["spec"]}, k, plane))
            if s["as"] == "tensor32" or s.get("f32"):
                v = v.astype(np.complex64 if np.iscomplexobj(v) else np.float32)
            if s["as"] != "array":
                return a.tf.constant(v), v.astype(complex)
            return v, v.astype(complex)
        return a.arg(s, k, plane), np.asarray(a.value(s, k, plane)).astype(complex)

    def one(self, a, op, res, where):
        t = op.get("judge", op["op"])
        if t == "eval":
            C13().evaluate(a, op, res, where)
            p, spec = a.profs[op["prof"]], a.pspec[op["prof"]]
            v = np.asarray(p(np.zeros((2, 2)), np.zeros((2, 2))))
            want = np.dtype("complex%d" % (2 * a.bits) if is_complex(spec, a.pspec) else "float%d" % a.bits)
            self.judged += 1
            if v.dtype != want:
                res.violate("wrong_precision", "%s: values of profile %s have type %s instead of %s" % (where, spec["t"], v.dtype, want))
            return
        if t == "setp":
            a.do(op)
            got = np.asarray(getattr(a.profs[op["prof"]], op["param"]))
            v = model.number(op["value"])
            self.arr(res, "the parameter %s" % op["param"], got, np.array(v), a, where, tol=1e-6 if a.bits == 32 else 1e-15, cplx=isinstance(v, complex))
            return
        if t == "sample":
            k = op["slm"]
            x, want = self.given(a, op, "arg", k, "f")
            out = a.call(op, lambda: a.slms[k].profile_to_tensor(x, complex=op["cplx"]))
            if self.fine(out, res, where):
                self.arr(res, "the sampled argument", out.value, want if op["cplx"] else want.real, a, where, tol=1e-6 if a.bits == 32 else 1e-15, cplx=op["cplx"])
            return
        if t == "grids":
            k = op["slm"]
            g, s = a.geo[k], a.slms[k]
            for name, got, want in (("the Fourier plane grid", s.fourier_plane_grid, g.fourier_grid()), ("the image plane grid", s.image_plane_grid, g.image_grid()),
                                    ("the padded Fourier plane grid", a.sims[k].fourier_plane_padded_grid, g.fourier_grid(a.simspec[k]["padx"], a.simspec[k]["pady"])),
                                    ("the padded image plane grid", a.sims[k].image_plane_padded_grid, g.image_grid(a.simspec[k]["padx"], a.simspec[k]["pady"]))):
                for u, v in zip(got, want):
                    self.arr(res, name, u, v, a, where, tol=1e-6 if a.bits == 32 else 1e-14)
            if k == 0:
                sp = g.spec
                self.arr(res, "theta", np.asarray(s.theta), np.array(sp["theta"]), a, where, tol=1e-6 if a.bits == 32 else 1e-15, scale=1.0)
                for u, v in zip(s.first_order_origin, (np.cos, np.sin)):
                    w = v(sp["theta"]) * sp["wl"] * sp["f"] / (sp["p"] * sp["px"])
                    if abs(float(u) - w) > (1e-6 if a.bits == 32 else 1e-14) * sp["wl"] * sp["f"] / (sp["p"] * sp["px"]):
                        res.violate("inaccurate", "%s: the first order origin is off" % where)
            return
        if t == "analysis":
            return self.analysis(a, op, res, where)
        if t in ("calc", "ifta", "random"):
            return self.dmd_state(a, op, res, where, t)
        if t in ("grating", "patch"):
            old = np.array(a.pattern(0))
            out = a.do(op)
            if not self.fine(out, res, where):
                return
            g, s = a.geo[0], a.geo[0].spec
            x, y = g.fourier_grid()
            amp, pin, pout = (np.real(a.value(op[f], 0, "f")) for f in ("amp", "pin", "pout"))
            ph = model.total_phase(x, y, s["p"] * s["px"], s["theta"], pin, pout, bool(s.get("neg")))
            want = model.ideal(amp, ph)
            now = np.array(a.pattern(0))
            if t == "grating":
                self.arr(res, "the ideal pattern", now, want, a, where, scale=1.0)
            else:
                ii, jj = np.meshgrid(np.arange(g.Ny), np.arange(g.Nx), indexing="ij")
                rr = (ii - float(op["i"])) ** 2 + (jj - float(op["j"])) ** 2 - (float(op["d"]) / 2) ** 2
                inside = rr < -1e-3
                if inside.any():
                    if now.dtype.kind != "f":
                        res.violate("wrong_precision", "%s: the pattern has type %s after a grayscale patch" % (where, now.dtype))
                    else:
                        self.judged += 1
                        d = np.abs(now[inside] - want[inside]).max()
                        if not d <= (3e-4 if a.bits == 32 else 1e-11):
                            res.violate("inaccurate", "%s: the patch is off by %.3g" % (where, d))
            return
        if t == "hologram":
            x, beam = self.given(a, op, "input", 1, "f")
            tgt = np.real(a.value(op["target"], 1, "i"))
            before = np.array(a.pattern(1))
            tx = a.arg(op["target"], 1, "i")
            out = a.call(op, lambda: a.slms[1].calculate_hologram(x, tx, method="gs", N=op["kw"]["N"]))
            if not self.fine(out, res, where):
                return
            ph = np.array(a.pattern(1))
            self.judged += 1
            if ph.dtype != np.dtype("float%d" % a.bits):
                res.violate("wrong_precision", "%s: the hologram has type %s" % (where, ph.dtype))
            elif out.draws == 1 and a.bits == 64 and op.get("seed") is not None:
                u = lab.draw_stream(op)(ph.shape, 0)
                want = model.gs(beam, tgt, 2 * np.pi * u, op["kw"]["N"])
                bad = np.abs(np.exp(1j * ph) - np.exp(1j * want)) > 1e-7
                if bad.mean() > 0.02:
                    res.violate("inaccurate", "%s: %d of %d phases differ by more than 1e-7 from the double precision reference" % (where, bad.sum(), bad.size))
            res.record(lab.summary(ph))
            return
        if t == "prop":
            i = op["sim"]
            k = a.simspec[i]["slm"]
            if op["assign"]:
                a.do({"op": "assign", "slm": k, "seed": op["seed"]})
            x, beam = self.given(a, op, "input", k, "f")
            pat = np.array(a.pattern(k))
            s = a.simspec[i]
            out = a.call(op, lambda: a.sims[i].propagate_to_image(x))
            if not self.fine(out, res, where):
                return
            ref = Reference(a.geo[k], s["padx"], s["pady"], beam, pat, a.geo[k].spec["kind"])
            if op.get("block"):
                a.sims[i].block_zeroth_order()
                sp = a.geo[k].spec
                ref.block(sp["wl"] * sp["f"] / (sp["p"] * sp["px"]) / 2)
            snap = a.snap_sim(i)
            for cls, msg in check_snapshot(snap, ref, a.bits, where):
                res.violate(cls, msg)
            for f in snap:
                if snap[f] is not None and not f.startswith("get_"):
                    want = np.dtype("complex%d" % (2 * a.bits) if f.endswith("field") else "float%d" % a.bits)
                    self.judged += 1
                    if snap[f].dtype != want:
                        res.violate("wrong_precision", "%s: %s has type %s instead of %s" % (where, f, snap[f].dtype, want))
            res.record(lab.summary(snap["image_plane_field"]))
            return
        raise AssertionError(t)

    def analysis(self, a, op, res, where):
        ny, nx = op["shape"]
        v = nprand("analysis", op["seed"]).normal(size=(ny, nx))
        if op["f32"]:
            v = v.astype(np.float32)
        x, y = np.meshgrid(np.arange(nx) - (nx - 1) / 2, np.arange(ny, 0, -1) - (ny + 1) / 2)
        ap = x ** 2 + y ** 2 < op["radius"] ** 2
        z = lambda n, m, extra: model.evaluate({"t": "zern", "a": 1.0, "radius": op["radius"], "n": n, "m": m, "norm": True, "extra": extra}, x, y)
        d = v.astype(float)
        if op["trivial"]:
            out = a.call(op, lambda: a.lib.remove_trivial_phase(v, op["radius"], remove_defocus=op["defocus"]))
            want = d
            for n, m in [(0, 0), (1, -1), (1, 1)] + ([(2, 0)] if op["defocus"] else []):
                q = z(n, m, False)
                want = want - np.mean(want[ap] * q[ap]) * q
            got = out.value
        else:
            out = a.call(op, lambda: a.lib.zernike_decomposition(v, op["radius"], op["num"], reconstruct=op["rec"], extrapolate=op["extra"]))
            nm = [(0, 0), (1, -1), (1, 1), (2, -2), (2, 0), (2, 2)][:op["num"]]
            c = [np.mean(d[ap] * z(n, m, op["extra"])[ap]) for n, m in nm]
            want, got = np.array(c), out.value
            if out.kind == "ok" and op["rec"]:
                rec = sum(q * z(n, m, op["extra"]) for q, (n, m) in zip(c, nm))
                want = np.concatenate([want, rec.ravel()])
                got = np.concatenate([np.array(out.value[0], dtype=float), np.array(out.value[1], dtype=float).ravel()])
        if not self.fine(out, res, where):
            return
        got = np.array(got, dtype=float)
        self.judged += 1
        single = a.bits == 32 or op["f32"]
        scale = max(1.0, float(np.abs(want).max()))
        if got.shape != want.shape or not (np.abs(got - want) <= (1e-4 if single else 1e-11) * scale).all():
            res.violate("inaccurate", "%s: the analysis is off by up to %.3g" % (where, float(np.abs(got - want).max()) if got.shape == want.shape else np.nan))
        res.record(lab.summary(got))

    def fine(self, out, res, where):
        if out.kind == "ok":
            return True
        if out.fired is None:
            res.violate("raises", "%s raised %s: %s" % (where, out.exc_type, str(out.exc)[:300]))
        return False

    def dmd_state(self, a, op, res, where, t):
        x, beam = self.given(a, op, "input", 0, "f")
        y, tgt = self.given(a, op, "target", 0, "i")
        kw = dict(op["kw"])
        if "signal_window" in kw:
            kw["signal_window"] = a.arg(kw["signal_window"], 0, "i")
        out = a.call(op, lambda: a.slms[0].calculate_dmd_state(x, y, method=op["method"], **kw))
        if not self.fine(out, res, where):
            return
        s, g = a.geo[0].spec, a.geo[0]
        gx, gy = g.fourier_grid()
        amp, pin, pout, kk, tf_ = model.amp_phase(beam, tgt, None)
        now = np.array(a.pattern(0))
        # pixels where the target's phase is rounding noise are left out
        mag = np.abs(tf_)
        sure = (mag > (1e-2 if a.bits == 32 else 1e-5) * mag.max()) & (np.abs(beam) > 1e-6 * np.abs(beam).max())
        if float(np.abs(beam).min()) < 1e-3 * np.abs(beam).max() and a.bits == 32:
            sure &= False
        ph = model.total_phase(gx, gy, s["p"] * s["px"], s["theta"], pin, pout, bool(s.get("neg")))
        if t == "calc":
            want = model.ideal(amp, ph)
            if now.dtype != np.dtype("float%d" % a.bits):
                res.violate("wrong_precision", "%s: the ideal pattern has type %s" % (where, now.dtype))
                return
            peak = np.unravel_index(np.argmax(amp), amp.shape)
            self.judged += 1
            if sure.any() and sure[peak]:
                d = np.abs(now - want)[sure].max()
                if not d <= (5e-3 if a.bits == 32 else 1e-9):
                    res.violate("inaccurate", "%s: the ideal pattern is off by %.3g" % (where, d))
            eta = s["px"] ** 2 / (s["wl"] * s["f"]) * s["Nx"] * s["Ny"] / kk if kk > 0 else None
            if eta is not None and sure[peak] and not abs(float(out.value) - eta) <= (1e-3 if a.bits == 32 else 1e-10) * eta:
                res.violate("inaccurate", "%s: the efficiency is %.12g instead of %.12g" % (where, out.value, eta))
        else:
            if now.dtype != bool:
                res.violate("not_boolean", "%s: the %s pattern has type %s" % (where, t, now.dtype))
        res.record(lab.summary(now))


PROPS = {"C15": C15}

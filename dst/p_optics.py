"""C12: what simulations report, at every point of a session, against reference Fourier optics."""
import numpy as np

from . import gen, lab
from .core import Property, Result
from .p_simulation import TOL, C08, Reference, changed, check_snapshot
from .p_update import describe
from .rng import nprand, rand

SIZES = [(32, 24), (24, 32), (20, 20), (31, 23), (17, 12), (12, 17), (33, 33), (48, 10)]


class C12(C08):
    id = "C12"
    quick_runs = 320
    thorough_runs = 9000
    technique = "deterministic simulation of long mixed sessions (patterns, propagations, blocks, failures, FFT switches), reference Fourier optics as oracle after every step"
    rule = ("A case is a seeded session of 20-60 operations on 1-3 modulators (DMD boolean / gray, LCOS real phases) and 2-4 simulations with different paddings: "
            "pattern changes of every kind, in-place edits, propagations of plain, aberrated and arbitrary complex beams, zero-order blocks with growing, shrinking, zero, "
            "huge and default radii, clears, FFT switches, one call in six failing. Non-trivial: at least four propagations judged.")
    stub = ["random source (scripted)", "failures"]
    assumptions = ["float32 results to 1e-4 of the largest value, float64 to 1e-11"]
    state_measure = "hash of (operation, modulator kind, size, padding, precision, FFT implementation, blocked)"
    level_note = ("Seeded search; every reported field, intensity, power and grid is compared with a float64 model of the optics built from the modulator's current pattern; "
                  "power conservation and padding independence are checked on the reported numbers themselves.")

    def generate(self, seed, tier):
        r = rand("C12", seed)
        slms = [gen.slm_spec(r, sizes=SIZES, mid=0.08, big=0.02) for _ in range(r.choice([1, 1, 2, 3]))]
        if r.random() < 0.4 and len(slms) > 1:
            slms[1] = dict(slms[0], px=slms[0]["px"] * 1.5, f=slms[0]["f"] * 0.5)
        sims = [{"slm": r.randrange(len(slms)), "padx": r.choice([0, 0, 1, 4, 9]), "pady": r.choice([0, 0, 1, 3, 10])} for _ in range(r.randint(2, 4))]
        plan = {"bits": r.choice([32, 64]), "fft": r.choice(["np", "tf"]), "slms": slms, "sims": sims}
        method = r.choice(["random", "ideal", "simple"])
        ops = []
        for _ in range(gen.cap(r.randint(20, 60), slms)):
            i = r.randrange(len(sims))
            k = sims[i]["slm"]
            s = slms[k]
            q = r.random()
            how = r.choice(["array", "array", "array", "tensor", "profile"])
            if q < 0.4:
                if r.random() < 0.3:
                    inp = {"as": "noise", "seed": r.randrange(10 ** 9)}
                elif r.random() < 0.1:
                    inp = {"as": "number", "v": r.choice([1.0, [0.3, -0.4]])}
                else:
                    inp = gen.as_arg(r, gen.beam(r, s), how)
                op = {"op": "prop", "sim": i, "input": inp, "everywhere": r.random() < 0.25}
                if r.random() < 0.15:
                    op["fault"] = gen.call_fault(r, 20) if r.random() < 0.6 or plan["fft"] == "tf" else gen.fft_fault(r, 1)
            elif q < 0.62:
                k = r.randrange(len(slms))
                s = slms[k]
                if s["kind"] == "lcos":
                    op = r.choice([{"op": "assign", "slm": k, "seed": r.randrange(10 ** 9)}, {"op": "reset", "slm": k}, {"op": "edit", "slm": k, "seed": r.randrange(10 ** 9)},
                                   {"op": "assign", "slm": k, "seed": r.randrange(10 ** 9)}])
                else:
                    op = r.choice([{"op": "assign", "slm": k, "seed": r.randrange(10 ** 9), "gray": r.random() < 0.4}, {"op": "on", "slm": k}, {"op": "off", "slm": k},
                                   {"op": "edit", "slm": k, "seed": r.randrange(10 ** 9)}, gen.calc(r, k, s, (method,), "array"), gen.patch(r, k, s, (method,), "array"),
                                   gen.grating(r, k, s, (method,), "array")])
                    op.pop("window", None)
            elif q < 0.85 and s["kind"] == "dmd":
                L = s["wl"] * s["f"] / (max(s["Nx"], s["Ny"]) * s["px"])
                op = {"op": "block", "sim": i, "r": r.choice([None, None, 0.0, 1e3, round(r.uniform(0.5, 8), 2) * gen.EDGE * L, round(r.uniform(0.5, 8), 2) * gen.EDGE * L])}
            elif q < 0.88:
                op = {"op": "clear", "sim": i}
            elif q < 0.93:
                op = {"op": "fft", "to": r.choice(["np", "tf"])}
            else:
                op = {"op": "grid", "sim": i}
            ops.append(op)
        plan["ops"] = ops
        return plan

    def execute(self, plan):
        res = Result()
        a = lab.Lab(plan, result=res)
        bits, n = a.bits, len(plan["sims"])
        refs = [None] * n
        judged = 0
        fft = plan["fft"]
        for num, op in enumerate(plan["ops"]):
            t = op["op"]
            where = "after op %d %s" % (num, describe(op))
            if t == "fft":
                a.do(op)
                fft = op["to"]
            elif t == "edit":
                self.edit(a, op, res)
            elif t == "grid":
                self.grids(a, op["sim"], res, where)
            elif t == "prop":
                i = op["sim"]
                k = a.simspec[i]["slm"]
                targets = [j for j in range(n) if a.simspec[j]["slm"] == k] if op["everywhere"] else [i]
                for j in targets:
                    o = dict(op, sim=j)
                    if op.get("fault"):
                        a.do(o)
                    out = a.do({x: y for x, y in o.items() if x != "fault"})
                    if out.kind != "ok":
                        res.violate("raises", "%s raised %s without a fault: %s" % (where, out.exc_type, str(out.exc)[:200]))
                        break
                    refs[j] = self.reference(a, j, o)
                    self.judge(a, j, refs[j], res, where)
                    judged += 1
                if len(targets) > 1 and not res.viol:
                    self.padding(a, targets, res, where)
                # the others still report their own propagation
                for j in range(n):
                    if j not in targets and refs[j] is not None and (num + j) % 3 == 0:
                        self.judge(a, j, refs[j], res, where + " elsewhere")
            elif t == "block":
                i = op["sim"]
                before = a.snap_sim(i)
                out = a.do(op)
                if refs[i] is None:
                    if out.kind == "ok":
                        res.violate("refusal", "%s: blocking worked before any propagation" % where)
                elif out.kind != "ok":
                    res.violate("raises", "%s raised %s: %s" % (where, out.exc_type, str(out.exc)[:200]))
                else:
                    refs[i] = self.after(a, i, op, refs[i])
                    self.judge(a, i, refs[i], res, where)
                    now = a.snap_sim(i)
                    keep = ~refs[i].blocked & ~refs[i].unsure
                    img0, img1 = before["image_plane_field"], now["image_plane_field"]
                    if img1 is not None and img1.shape == keep.shape and not np.array_equal(img0[keep], img1[keep], equal_nan=True):
                        res.violate("block_touches_rest", "%s changed light outside the blocked radius" % where)
                    if not lab.same(before["output_field"], now["output_field"]) or not lab.same(before["input_field"], now["input_field"]):
                        res.violate("block_touches_rest", "%s changed %s" % (where, changed(now, before)))
            elif t == "clear":
                a.do(op)
                refs[op["sim"]] = None
                self.judge(a, op["sim"], None, res, where)
            else:
                out = a.do(op)
                if out.kind != "ok":
                    res.violate("raises", "%s raised %s without a fault: %s" % (where, out.exc_type, str(out.exc)[:200]))
            spec = plan["slms"][op["slm"] if "slm" in op else plan["sims"][op["sim"]]["slm"] if "sim" in op else 0]
            sp = plan["sims"][op["sim"]] if "sim" in op else {}
            res.state(t, spec["kind"], spec["Nx"], spec["Ny"], sp.get("padx"), sp.get("pady"), bits, fft, refs[op["sim"]] is not None if "sim" in op else None)
            if res.viol:
                break
        res.count("propagations_judged", judged)
        res.nontrivial = judged >= 4
        for i in range(n):
            res.record(i, lab.summary(a.sims[i].image_plane_field))
        return res

    def edit(self, a, op, res):
        k = op["slm"]
        r = nprand("edit", op["seed"])
        pat = a.pattern(k)
        i0, j0 = r.integers(0, pat.shape[0]), r.integers(0, pat.shape[1])
        v = r.uniform(-3, 3) if a.geo[k].spec["kind"] == "lcos" else float(r.integers(0, 2))
        try:
            pat[i0:i0 + 4, j0:j0 + 5] = v
        except ValueError:
            res.count("pattern_not_editable")

    def judge(self, a, i, ref, res, where):
        snap = a.snap_sim(i)
        for cls, msg in check_snapshot(snap, ref, a.bits, where):
            res.violate(cls, msg)
        if ref is None or res.viol:
            return
        tol = TOL[a.bits] * 10
        want = np.complex64 if a.bits == 32 else np.complex128
        for f in ("input_field", "output_field", "image_plane_field"):
            if snap[f].dtype != want:
                res.violate("precision", "%s: %s has type %s" % (where, f, snap[f].dtype))
        if not ref.blocked.any() and ref.finite:
            p0, p1 = snap["get_output_power"], snap["get_image_plane_power"]
            tiny = (1e-36 if a.bits == 32 else 1e-300) * ref.input.size * (ref.area_f + ref.area_i)
            if abs(p0 - p1) > tol * abs(p0) + tiny:
                res.violate("power", "%s: the power changes from %.9g at the modulator to %.9g in the image plane" % (where, p0, p1))

    def padding(self, a, sims, res, where):
        tol = TOL[a.bits] * 10
        p = [(a.sims[j].get_input_power(), a.sims[j].get_output_power(), a.sims[j].get_image_plane_power()) for j in sims]
        for q in p[1:]:
            for u, v in zip(p[0], q):
                if abs(u - v) > tol * abs(u) + (1e-36 if a.bits == 32 else 1e-300):
                    res.violate("padding", "%s: the power depends on the padding (%.9g against %.9g)" % (where, u, v))

    def grids(self, a, i, res, where):
        s = a.simspec[i]
        g = a.geo[s["slm"]]
        sim, slm = a.sims[i], a.slms[s["slm"]]
        for name, got, want in (("padded image plane grid", sim.image_plane_padded_grid, g.image_grid(s["padx"], s["pady"])),
                                ("padded Fourier plane grid", sim.fourier_plane_padded_grid, g.fourier_grid(s["padx"], s["pady"])),
                                ("image plane grid", slm.image_plane_grid, g.image_grid()), ("Fourier plane grid", slm.fourier_plane_grid, g.fourier_grid())):
            for u, v in zip(got, want):
                if not lab.close(u, v, 1e-5 if a.bits == 32 else 1e-12):
                    res.violate("grid", "%s: the %s is wrong" % (where, name))
        res.count("grids_judged")


PROPS = {"C12": C12}

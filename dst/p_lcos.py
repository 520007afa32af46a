"""C11: LCOS holograms for scripted random starts, aberrated beams and any history."""
import numpy as np

from . import gen, lab, model
from .core import Property, Result
from .p_update import describe
from .rng import rand

STYLES = ["random", "random", "random", "random", "zeros", "ones", "half", "ramp", 0.25]


def target(r, s, weak=True):
    """A non-negative target away from the optical axis."""
    L, px = gen.extent(s, "i")
    half = min(s["Nx"], s["Ny"]) / 2
    d = round(r.uniform(0.25, 0.5), 3) * half
    ang = r.uniform(0, 2 * np.pi)
    ex, ey = s["wl"] * s["f"] / (s["Nx"] * s["px"]), s["wl"] * s["f"] / (s["Ny"] * s["px"])
    m = half / max(s["Nx"], s["Ny"])
    x0, y0 = float(d * np.cos(ang) * ex), float(d * np.sin(ang) * ey)
    w = round(r.uniform(1.2, 2.2), 2) * max(ex, ey)
    t = {"t": "sg", "x0": x0, "y0": y0, "a": r.choice([1.0, 1.0, 0.01 if weak else 1.0, 30.0]), "w": w, "p": r.choice([1.0, 2.0])}
    if r.random() < 0.4:
        t = {"t": "add", "a": t, "b": {"t": "sg", "x0": round(0.3 * x0, 9), "y0": y0, "a": 0.5 * t["a"], "w": w, "p": 1.0}}
    return t


class C11(Property):
    id = "C11"
    quick_runs = 160
    thorough_runs = 6000
    collect_every = 5
    rechecks = recheck_workers = 4
    technique = "deterministic simulation with a scripted random start, failures between calls, and reference optics and a fresh session as oracles"
    rule = ("A case is a seeded session on 1-2 LCOS modulators: 5-12 hologram computations (Gerchberg-Saxton or MRAF) from random, constant, extreme or structured "
            "starting phases with plain, aberrated, clipped, narrow (underflowing) or dark beams, series of iteration counts from one start, failed and interrupted calls in between, "
            "precision and FFT implementation varied. Non-trivial: at least one series and three holograms judged.")
    real = ["pySLM2.slm.LCOS_SLM, pySLM2._lib (gs, mraf)", "pySLM2.simulation", "TensorFlow kernels", "numpy FFT"]
    stub = ["random source (scripted starting phases)", "failures"]
    assumptions = ["targets are non-negative amplitudes", "the start is drawn from tf.random.uniform (otherwise the comparisons that need the same start twice are skipped)"]
    state_measure = "hash of (method, start style, beam class, iterations, precision, FFT, fault before)"
    level_note = ("Seeded search over starts, beams and histories. Error decrease and position are judged by float64 optics; independence from earlier calls by a fresh "
                  "session given the same start, bit for bit.")

    def generate(self, seed, tier):
        r = rand("C11", seed)
        slms = [gen.slm_spec(r, "lcos", mid=0.06, big=0.012) for _ in range(r.choice([1, 1, 2]))]
        plan = {"bits": r.choice([32, 32, 64]), "fft": r.choice(["np", "np", "tf"]), "slms": slms}
        mraf = r.random() < 0.5
        ops = []
        for _ in range(gen.cap(r.randint(5, 12), slms)):
            k = r.randrange(len(slms))
            s = slms[k]
            how = r.choice(["array", "array", "array", "tensor", "profile"])
            beam = r.choice(["plain", "plain", "aberrated", "aberrated", "clipped", "both", "dark", "number", "narrow", "scaled", "scaled"])
            op = {"op": "hologram", "slm": k, "beam": beam, "seed": r.randrange(10 ** 9), "draw": r.choice(STYLES),
                  "input": {"as": "number", "v": 0.0 if beam == "dark" else r.choice([1.0, [0.6, 0.8]])} if beam in ("dark", "number")
                  else gen.as_arg(r, gen.beam(r, s, beam in ("aberrated", "both"), beam in ("clipped", "both")), how),
                  "target": gen.as_arg(r, target(r, s), how)}
            if beam == "narrow":                 # its tail underflows in single precision
                spec = gen.beam(r, s, r.random() < 0.7, False)
                (spec["a"] if spec["t"] == "mul" else spec).update(w=round(r.uniform(0.08, 0.3), 3) * gen.extent(s, "f")[0], x0=0.0, y0=0.0)
                op["input"] = gen.as_arg(r, spec, how)
            if beam == "scaled":                 # any unit of amplitude
                spec = gen.beam(r, s, r.random() < 0.5, False)
                (spec["a"] if spec["t"] == "mul" else spec)["a"] *= r.choice([1e-24, 1e-21, 1e-12, 1e-5, 1e5, 1e12, 1e21])
                op["input"] = gen.as_arg(r, spec, how)
            if mraf and r.random() < 0.5 and beam != "scaled":
                px = max(s["wl"] * s["f"] / (s["Nx"] * s["px"]), s["wl"] * s["f"] / (s["Ny"] * s["px"]))
                op["method"] = "mraf"
                op["target"] = gen.as_arg(r, target(r, s, weak=False), how)        # MRAF is meant for targets brighter than the noise region
                op["kw"] = {"N": r.randint(2, 15), "mixing_factor": r.choice([0.4, 0.6, 0.9]),
                            "signal_window": {"as": "array", "spec": {"t": "circwin", "x0": 0.0, "y0": 0.0, "r": 0.5 * min(s["Nx"], s["Ny"]) * px}}}
            else:
                op["method"] = "gs"
                op["kw"] = {"N": r.randint(1, 12)}
                if r.random() < 0.5:
                    far = r.random() < 0.25 and s["Nx"] * s["Ny"] < 3000
                    op["series"] = sorted(r.sample(range(1, 121 if far else 31 if tier == "quick" else 81), r.randint(2, 5)))
            f = r.random()
            if f < 0.2:
                op["fault"] = gen.call_fault(r, 14)
            elif f < 0.3 and plan["fft"] == "np":
                op["fault"] = gen.fft_fault(r, 4)
            elif f < 0.38:
                op["fault"] = gen.rng_fault(r)
            ops.append(op)
        plan["ops"] = ops
        return plan

    def shrink_op(self, op):
        if op.get("fault"):
            yield {k: v for k, v in op.items() if k != "fault"}
        if len(op.get("series", [])) > 2:
            for i in range(len(op["series"])):
                yield dict(op, series=op["series"][:i] + op["series"][i + 1:])
        if op.get("series"):
            yield {k: v for k, v in op.items() if k != "series"}

    def execute(self, plan):
        res = Result()
        a = lab.Lab(plan, result=res)
        holos = series = 0
        again = []
        for n, op in enumerate(plan["ops"]):
            k = op["slm"]
            where = "op %d hologram(%s, %s beam, %s start)" % (n, op["method"], op["beam"], op["draw"])
            if op.get("fault"):
                a.do(op)
            clean = {x: y for x, y in op.items() if x not in ("fault", "series")}
            beam = np.asarray(a.value(op["input"], k, "f"), dtype=complex)
            tgt = np.real(a.value(op["target"], k, "i"))
            errs = []
            for N in op.get("series") or [op["kw"]["N"]]:
                o = dict(clean, kw=dict(clean["kw"], N=N))
                out = a.do(o, faults=False)
                if out.kind != "ok":
                    res.violate("raises", "%s N=%d raised %s without a fault: %s" % (where, N, out.exc_type, str(out.exc)[:200]))
                    break
                ph = np.array(a.pattern(k))
                holos += 1
                if ph.shape != beam.shape:
                    res.violate("shape", "%s gives phases of shape %s instead of %s" % (where, ph.shape, beam.shape))
                    break
                if not np.isrealobj(ph) or ph.dtype.kind != "f":
                    res.violate("not_real", "%s gives phases of type %s" % (where, ph.dtype))
                    break
                if not np.isfinite(ph).all():
                    res.violate("not_finite", "%s N=%d gives %d phases that are not finite" % (where, N, int((~np.isfinite(ph)).sum())))
                    break
                res.record(n, N, lab.summary(ph))
                errs.append((N, model.gs_error(beam * np.exp(1j * ph.astype(float)), tgt)))
                if out.draws == 1:
                    again.append((n, o, ph))
            if res.viol:
                break
            if op["method"] == "gs" and len(errs) > 1 and out.draws == 1:
                series += 1
                scale = np.sqrt(np.mean(tgt ** 2)) + np.sqrt(np.mean(np.abs(beam) ** 2))
                for (n0, e0), (n1, e1) in zip(errs, errs[1:]):
                    if e1 > e0 * (1 + 1e-5) + scale * (3e-6 if a.bits == 32 else 1e-12):
                        res.violate("error_grows", "%s: the amplitude error after %d iterations (%.8g) is larger than after %d (%.8g) from the same start" % (where, n1, e1, n0, e0))
            if op["beam"] not in ("dark", "narrow") and errs:
                self.position(res, a, k, op, beam, tgt, ph, where, errs[-1][0])
            res.state(op["method"], op["draw"], op["beam"], errs[-1][0], plan["bits"], plan["fft"], (op.get("fault") or {}).get("kind"))
            if res.viol:
                break
        if not res.viol and again:
            r = rand("again", len(again), plan["ops"][0]["seed"])
            b = lab.Lab(plan)
            for n, o, ph in r.sample(again, min(3, len(again))):
                out = b.do(o, faults=False)
                if out.kind != "ok" or not lab.same(np.array(b.pattern(o["slm"])), ph):
                    res.violate("history", "op %d hologram(%s): a fresh session with the same start gives other phases (%s)" % (
                        n, o["method"], out.exc_type or "%d of %d differ" % ((np.array(b.pattern(o["slm"])) != ph).sum(), ph.size)))
        res.count("holograms_judged", holos)
        res.count("series_judged", series)
        res.nontrivial = holos >= 3 and series >= 1
        return res

    def position(self, res, a, k, op, beam, tgt, ph, where, N):
        """Simulated with the library's own simulation: where is the light, compared with all mirror images of the target?"""
        if k not in getattr(a, "psims", {}):
            a.psims = getattr(a, "psims", {})
            a.psims[k] = a.lib.SLMSimulation(a.slms[k])
        sim = a.psims[k]
        sim.propagate_to_image(a.arg(op["input"], k, "f"))
        img = np.abs(np.asarray(sim.image_plane_field)).astype(float)
        if img.shape != tgt.shape or not np.isfinite(img).all():
            res.violate("simulation", "%s: the simulation of the hologram is not finite or has the wrong shape" % where)
            return
        x, y = a.geo[k].image_grid()
        spec = op["target"]["spec"]
        t = lambda fx, fy: np.abs(model.evaluate(spec, fx * x, fy * y)) ** 2
        cands = {"correct": t(1, 1), "mirrored in x": t(-1, 1), "mirrored in y": t(1, -1), "turned by 180 degrees": t(-1, -1)}
        p = img ** 2

        def score(q):
            return float((p * q).sum() / np.sqrt((q ** 2).sum() * (p ** 2).sum()))
        good = score(cands["correct"])
        res.count("positions_judged")
        self.min_score = min(getattr(self, "min_score", 1), good)
        for name in list(cands)[1:]:
            q = cands[name]
            overlap = float((q * cands["correct"]).sum() / np.sqrt((q ** 2).sum() * (cands["correct"] ** 2).sum()))
            if overlap > 0.5:
                continue
            s = score(q)
            if N >= 2 and s > 1.3 * good + 0.1:       # one step from a structured start may go either way
                res.violate("misplaced", "%s N=%d: the light matches the target %s (%.2f) better than the target itself (%.2f)" % (where, N, name, s, good))
        lit = cands["correct"] > 0.02 * cands["correct"].max()
        share = float(p[lit].sum() / p.sum())
        area = float(lit.mean())
        res.count("share_%d0_percent" % int(share * 10))
        if N >= 2 and share < 2 * area and area < 0.1:
            res.violate("misplaced", "%s N=%d: only %.1f%% of the light is in the target's %.1f%% of the plane" % (where, N, 100 * share, 100 * area))


PROPS = {"C11": C11}

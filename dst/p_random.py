"""C10: the random DMD method under scripted and under real random draws."""
import numpy as np
from scipy.stats import binom

from . import env, gen, lab, model, seams
from .core import Property, Result
from .p_update import describe
from .rng import nprand, rand


def probability(a, k, op):
    """(p, tolerance, dark pixels) for a random-method operation, by the reference model."""
    s = a.geo[k].spec
    x, y = a.geo[k].fourier_grid()
    r = float(op.get("kw", {}).get("r", 10.0))
    eps = a.eps * 2
    dphase, damp = 0.0, 0.0
    if op["op"] == "calc":
        inp, tgt = a.value(op["input"], k, "f"), a.value(op["target"], k, "i")
        win = a.value(op.get("window"), k, "f")
        amp, pin, pout, kk, t = model.amp_phase(np.asarray(inp, dtype=complex), np.asarray(tgt, dtype=complex), win)
        mag, ain = np.abs(t), np.abs(inp)
        noise = 64 * eps * mag.max() if mag.size else 0.0
        with np.errstate(divide="ignore", invalid="ignore"):
            dphase = np.where(mag > 0, noise / np.where(mag > 0, mag, 1), np.pi) + 64 * eps
            err = np.where(ain > 0, noise / np.where(ain > 0, ain, 1), 0.0)
        kerr = float(err.max() / kk) if kk > 0 else 1.0
        damp = err / kk + amp * (kerr + 64 * eps)
        dphase = np.where(ain == 0, 0.0, np.minimum(dphase, np.pi))
        dphase = np.where((ain > 0) & (ain < (1e-36 if a.bits == 32 else 1e-304)), np.pi, dphase)      # no phase to speak of so close to underflow
        dark = (ain == 0) | (False if win is None else np.asarray(win) == 0)      # not where the transform happens to cancel: that is rounding
        if ((ain > 0) & (ain < (1e-30 if a.bits == 32 else 1e-290))).any():
            damp = np.ones(ain.shape)          # the beam underflows: its amplitude ratios say nothing
    else:
        amp, pin, pout = (np.real(a.value(op[f], k, "f")) for f in ("amp", "pin", "pout"))
        dark = np.asarray(amp) == 0
    phase = model.total_phase(x, y, s["p"] * s["px"], s["theta"], pin, pout, bool(s.get("neg")))
    dphase = dphase + 16 * eps * (np.abs(phase) + 2 * np.pi * (s["Nx"] + s["Ny"]) / s["p"])
    p = model.random_probability(amp, phase, r)
    tol = model.random_tolerance(amp, phase, r, eps, dphase, damp)
    return p, tol, dark & np.ones(p.shape, dtype=bool)


class C10(Property):
    id = "C10"
    quick_runs = 320
    thorough_runs = 6000
    collect_every = 5
    rechecks = recheck_workers = 4
    technique = "simulation of the random source: adversarial scripted draws judged against the documented probability, and seeded real draws judged statistically"
    rule = ("A case is a seeded session on 1-2 DMDs. Scripted cases force, at 8-24 random holograms, gratings or patches, draws just above and just below each pixel's "
            "documented probability, all zero, all one, or ramps, with failures in between. Statistical cases repeat a hologram 150-300 times (3-6 times on a large modulator) with TensorFlow's real "
            "source and test every pixel's frequency, neighbours, successive calls and two modulators. Non-trivial: at least 1000 pixels judged.")
    real = ["pySLM2.slm, pySLM2._lib (random method)", "TensorFlow kernels", "TensorFlow random source (statistical cases)"]
    stub = ["random source in the scripted cases"]
    assumptions = ["scripted cases: the library draws one uniform number per pixel from tf.random.uniform (otherwise only the statistical cases judge)",
                   "statistical thresholds are set so that a correct source fails with probability below 1e-8 per case"]
    state_measure = "hash of (case kind, operation, draw style, order sign, steepness, precision)"
    level_note = ("Scripted draws test each pixel's threshold exactly (to float rounding); the statistical cases bound frequency, spatial and temporal dependence "
                  "at a fixed significance. Trusts the float64 reference of the documented probability.")

    def generate(self, seed, tier):
        r = rand("C10", seed)
        stat = r.random() < 0.22
        if stat:
            size = r.choice([(32, 24), (24, 32), (20, 20), (40, 16)])
            s = gen.slm_spec(r, "dmd", sizes=[size], mid=0.08, big=0.25)
            slms = [s, dict(s)] if r.random() < 0.6 else [s]
        else:
            slms = [gen.slm_spec(r, "dmd", mid=0.08, big=0.03) for _ in range(r.choice([1, 2]))]
        plan = {"kind": "stat" if stat else "scripted", "bits": r.choice([32, 64]), "slms": slms, "fft": r.choice(["np", "tf"]), "seed": r.randrange(10 ** 6)}
        ops = []
        if stat:
            s = slms[0]
            op = gen.calc(r, 0, s, ("random",), "array") if r.random() < 0.5 else gen.grating(r, 0, s, ("random",), "array")
            op.pop("window", None)
            if op["op"] == "calc":
                op["input"] = gen.as_arg(r, gen.bright_beam(r, s), "array")
            op["kw"] = {"r": r.choice([1.0, 1.0, 1.0, 3.0, 3.0, 0.5, 0.5, 0.1, 30.0])}
            if op["op"] == "grating" and op["amp"]["as"] == "number":
                op["amp"]["v"] = r.choice([0.25, 0.5, 0.8])
            plan["repeat"] = r.choice([150, 200, 300]) if tier == "quick" else r.choice([300, 1000])
            if s["Nx"] * s["Ny"] > 100000:
                plan["repeat"] = r.choice([3, 4, 6])          # the pixels of one large hologram are a sample of their own
            plan["between"] = r.choice(["nothing", "nothing", "other", "seeded_numpy", "ideal"])
            ops = [op]
        else:
            for _ in range(gen.cap(r.randint(8, 24), slms)):
                k = r.randrange(len(slms))
                s = slms[k]
                how = r.choice(["array", "array", "array", "tensor", "profile"])
                f = r.choice([gen.calc, gen.calc, gen.grating, gen.patch])
                op = f(r, k, s, ("random",), how)
                if op["op"] == "calc" and r.random() < 0.6:
                    op["input"] = gen.as_arg(r, gen.bright_beam(r, s), how)
                op["kw"] = {"r": r.choice([0.5, 1.0, 3.0, 10.0, 0.1, 25.0, 60.0, 200.0])} if r.random() < 0.6 else {}
                op["style"] = r.choice(["edge", "edge", "edge", "below", "above", "zeros", "ones", "uniform"])
                if r.random() < 0.15:
                    op["fault"] = r.choice([gen.call_fault(r, 20), gen.rng_fault(r)])
                ops.append(op)
        plan["ops"] = ops
        return plan

    def shrink(self, plan):
        if plan["kind"] == "stat":
            if plan.get("between") != "nothing":
                yield dict(plan, between="nothing")
            if len(plan["slms"]) > 1:
                yield dict(plan, slms=plan["slms"][:1])
            return
        yield from super().shrink(plan)

    def execute(self, plan):
        return self.statistical(plan) if plan["kind"] == "stat" else self.scripted(plan)

    # ------------------------------------------------------------------------------------------------------ scripted
    def scripted(self, plan):
        res = Result()
        a = lab.Lab(plan, result=res)
        judged = 0
        for n, op in enumerate(plan["ops"]):
            k = op["slm"]
            p, tol, unlit = probability(a, k, op)
            if op.get("fault"):
                a.do(op)
            clean = {x: y for x, y in op.items() if x != "fault"}
            r = nprand("edge", op["seed"])
            margin = tol + 2 * a.eps
            style = op["style"]
            on = r.random(p.shape) < 0.5
            if style == "below":
                on[...] = True
            if style == "above":
                on[...] = False
            if style in ("edge", "below", "above"):
                u = np.where(on, p - margin, p + margin)
            elif style == "zeros":
                u = np.zeros(p.shape)
            elif style == "ones":
                u = np.full(p.shape, 1 - 2 * a.eps)
            else:
                u = r.random(p.shape)
            u = np.clip(u, 0.0, 1 - 2 * a.eps)
            u = u.astype(a.fdtype).astype(float)
            fn = a.thunk(clean)
            before = np.array(a.pattern(k))
            out = self.call_with(a, clean, fn, u)
            if out.kind != "ok":
                res.violate("raises", "op %d %s raised %s: %s" % (n, describe(op), out.exc_type, str(out.exc)[:200]))
                break
            got = np.asarray(a.pattern(k))
            where = "op %d %s (r=%s, draws: %s)" % (n, describe(op), op.get("kw", {}).get("r", "default"), style)
            region = np.ones(p.shape, dtype=bool)
            if op["op"] == "patch":
                ii, jj = np.meshgrid(np.arange(p.shape[0]), np.arange(p.shape[1]), indexing="ij")
                rr = (ii - float(op["i"])) ** 2 + (jj - float(op["j"])) ** 2
                region = rr < (op["d"] / 2) ** 2 - 1e-3 * max(1.0, op["d"])
            if got.shape != p.shape:
                res.violate("shape", "%s: pattern of shape %s" % (where, got.shape))
                break
            if op["op"] != "patch" and got.dtype != bool:
                res.violate("not_boolean", "%s: pattern of type %s" % (where, got.dtype))
                break
            got = got.astype(bool)
            dark = region & unlit
            if (got & dark).any():
                res.violate("dark_pixel_on", "%s: %d pixels of zero amplitude are on" % (where, int((got & dark).sum())))
            if out.draws == 1 and self.draw_shape == p.shape:
                sure = region & (np.abs(u - p) > 0.9 * margin) & (tol < 0.2)
                want = u < p
                bad = sure & (got != want)
                alt = sure & (got != (1 - u < p)) & (np.abs(1 - u - p) > margin)
                judged += int(sure.sum())
                if bad.any() and (alt.any() or style == "edge"):
                    i, j = np.argwhere(bad)[0]
                    res.violate("wrong_probability", "%s: %d of %d pixels are wrong, e.g. (%d, %d) with on-probability %.6f is %s for the draw %.6f" % (
                        where, int(bad.sum()), int(sure.sum()), i, j, p[i, j], "on" if got[i, j] else "off", u[i, j]))
            else:
                res.count("draws_not_judged")
            res.record(n, lab.summary(got))
            res.state("scripted", op["op"], style, plan["slms"][k]["neg"], op.get("kw", {}).get("r"), plan["bits"])
            if res.viol:
                break
        res.nontrivial = judged >= 1000
        res.count("pixels_judged", judged)
        return res

    def call_with(self, a, op, fn, u):
        """Like Lab.call, with the draw array scripted."""
        self.draw_shape = None
        real = lab.draw_stream

        def stream(op_):
            def draw(shape, n):
                self.draw_shape = tuple(shape)
                if tuple(shape) == u.shape:
                    return u
                return np.resize(u, shape)
            return draw
        lab.draw_stream = stream
        try:
            return a.call(op, fn, faults=False)
        finally:
            lab.draw_stream = real

    # --------------------------------------------------------------------------------------------------- statistical
    def statistical(self, plan):
        res = Result()
        a = lab.Lab(plan, seam=False, seed=plan["seed"], result=res)
        op = plan["ops"][0]
        p, tol, unlit = probability(a, 0, op)
        m = plan["repeat"]
        n_slm = len(plan["slms"])
        samples = [np.zeros((m,) + p.shape, dtype=bool) for _ in range(n_slm)]
        other = dict(op, method="ideal", kw={})
        fns = {}
        for t in range(m):
            for k in range(n_slm):
                if t == 0:
                    fns[k] = a.thunk(dict(op, slm=k))
                if plan["between"] == "seeded_numpy":
                    np.random.seed(1)
                    import random
                    random.seed(1)
                elif plan["between"] == "ideal" and t % 5 == 0:
                    a.do(dict(other, slm=k))
                elif plan["between"] == "other" and t % 7 == 0:
                    a.do({"op": "patch", "slm": k, "amp": {"as": "number", "v": 1}, "pin": {"as": "number", "v": 0}, "pout": {"as": "number", "v": 0},
                          "method": "random", "kw": {}, "i": 5, "j": 5, "d": 4})
                out = a.call(dict(op, slm=k), fns[k], faults=False)
                if out.kind != "ok":
                    res.violate("raises", "%s raised %s" % (describe(op), out.exc_type))
                    return res
                x = np.asarray(a.pattern(k))
                if x.shape != p.shape or x.dtype != bool:
                    res.violate("not_boolean", "%s gives a pattern of type %s and shape %s" % (describe(op), x.dtype, x.shape))
                    return res
                samples[k][t] = x
        where = "%d draws of %s (r=%s)" % (m, describe(op), op["kw"].get("r"))
        lo, hi = np.clip(p - tol, 0, 1), np.clip(p + tol, 0, 1)
        use = (p > 0.02) & (p < 0.98) & (tol < 0.05)
        for k in range(n_slm):
            x = samples[k]
            if x[:, unlit].any():
                res.violate("dark_pixel_on", "%s: pixels of zero amplitude are on" % where)
            cnt = x.sum(0)
            alpha = 1e-10 / p.size
            bad = (binom.cdf(cnt, m, lo) < alpha) | (binom.sf(cnt - 1, m, hi) < alpha)
            bad &= tol < 0.2
            if bad.any():
                i, j = np.argwhere(bad)[0]
                res.violate("wrong_frequency", "%s: %d pixels have an impossible frequency, e.g. (%d, %d) was on %d times with probability %.4f" % (
                    where, int(bad.sum()), i, j, cnt[i, j], p[i, j]))
            z = np.where(use, (x - p) / np.sqrt(np.maximum(p * (1 - p), 1e-9)), 0.0)
            self.test(res, z, use, (p > 0.05) & (p < 0.95) & (tol < 0.005), where)
            if n_slm > 1 and k == 1:
                z0 = np.where(use, (samples[0] - p) / np.sqrt(np.maximum(p * (1 - p), 1e-9)), 0.0)
                self.corr(res, "two modulators", z0, z, use, where)
        res.record([lab.summary(s) for s in samples])
        res.state("stat", op["op"], plan["between"], plan["slms"][0]["neg"], op["kw"].get("r"), plan["bits"])
        res.nontrivial = use.sum() * m >= 1000
        res.count("pixels_judged", int(use.sum()) * m)
        res.count("statistical_cases")
        return res

    def test(self, res, z, use, plain, where):
        for name, (di, dj) in {"horizontal neighbours": (0, 1), "vertical neighbours": (1, 0), "diagonal neighbours": (1, 1), "pixels 4 apart": (0, 4), "rows 2 apart": (2, 0)}.items():
            a = z[:, :z.shape[1] - di, :z.shape[2] - dj]
            b = z[:, di:, dj:]
            ok = use[:use.shape[0] - di, :use.shape[1] - dj] & use[di:, dj:]
            self.corr(res, name, a, b, ok, where)
        for lag in (1, 2):
            self.corr(res, "calls %d apart" % lag, z[:-lag], z[lag:], use, where)
        ii, jj = np.indices(use.shape)
        off_i, off_j = 2 * ii != use.shape[0] - 1, 2 * jj != use.shape[1] - 1
        self.corr(res, "mirrored pixels", z, z[:, ::-1, ::-1], use & use[::-1, ::-1] & (off_i | off_j), where, symmetric=True)
        self.corr(res, "pixels mirrored left to right", z, z[:, :, ::-1], use & use[:, ::-1] & off_j, where, symmetric=True)
        self.corr(res, "pixels mirrored top to bottom", z, z[:, ::-1], use & use[::-1] & off_i, where, symmetric=True)
        self.everywhere(res, np.where(plain, z, 0.0), where)

    def everywhere(self, res, z, where):
        """All distances in space and calls at once (circular correlations)."""
        used = (z != 0).any(0)
        m = len(z)
        if used.sum() < 50:
            return
        c = np.fft.irfftn(np.abs(np.fft.rfftn(z)) ** 2, s=z.shape, axes=(0, 1, 2))
        pairs = np.fft.irfft2(np.abs(np.fft.rfft2(used.astype(float))) ** 2, s=used.shape).round() * m
        t = np.where(pairs >= (5000 if z.size < 1000000 else 50000), c / np.sqrt(np.maximum(pairs, 1.0)), 0.0)
        t[0, 0, 0] = 0.0
        # a distance that is its own opposite counts every pair twice
        for lag in {0, m // 2 if m % 2 == 0 else 0}:
            for i in {0, z.shape[1] // 2 if z.shape[1] % 2 == 0 else 0}:
                for j in {0, z.shape[2] // 2 if z.shape[2] % 2 == 0 else 0}:
                    t[lag, i, j] /= np.sqrt(2)
        k = np.unravel_index(np.argmax(np.abs(t)), t.shape)
        if abs(t[k]) > 9.0:
            res.violate("dependent", "%s: the draws of pixels %d rows and %d columns apart, %d calls apart, are not independent (standardised correlation %.1f)" % (
                where, k[1], k[2], k[0], t[k]))

    def corr(self, res, name, a, b, ok, where, symmetric=False):
        n = int(ok.sum()) * len(a)
        if n < 500 or res.viol:
            return
        c = float((a * b)[:, ok].sum() / np.sqrt(n * (2 if symmetric else 1)))
        heavy = 7.0                      # products of standardised Bernoulli variables; |z| <= 7 for p in (0.02, 0.98)
        if abs(c) > heavy:
            res.violate("dependent", "%s: %s are not independent (standardised correlation %.1f over %d pairs)" % (where, name, c, n))


PROPS = {"C10": C10}

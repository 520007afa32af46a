"""C20: from the requested beam, through calculation, upload under faults and triggers, to the light the mirrors diffract."""
import math

import numpy as np

from . import ctl, gen, lab, model
from .core import Property, Result
from .p_random import probability
from .rng import rand

SIZES = [(64, 48), (48, 64), (80, 64), (96, 64), (72, 72), (61, 47)]
JUDGED = 0.5           # expected relative error above which a run says nothing


def light(geo, inp, mirrors, neg):
    """The field around the first order, moved to the origin of the image plane."""
    s = geo.spec
    x, y = geo.fourier_grid()
    g = model.grating_phase(x, y, s["p"] * s["px"], s["theta"])
    return model.to_image(np.asarray(inp, dtype=complex) * np.asarray(mirrors, dtype=float) * np.exp((-1j if neg else 1j) * g))


def signal_region(geo):
    """Where no other order reaches: within 0.45 of the distance to the zeroth order."""
    s = geo.spec
    x, y = geo.image_grid()
    return x ** 2 + y ** 2 < (0.45 * geo.scale / (s["p"] * s["px"])) ** 2


def strength(method, kw):
    if method == "ideal":
        return 0.25
    if method == "ifta":
        return 0.25 * float(kw.get("s", 1.0))
    q = math.pi / (2 * float(kw.get("r", 10.0)))
    return q / math.sinh(q) / math.pi


class Request:
    """What the user asked for, and how well a perfect implementation of the method can do it."""

    def __init__(self, a, k, op):
        geo = a.geo[k]
        s = geo.spec
        self.geo, self.neg, self.method = geo, bool(s.get("neg")), op["method"]
        self.inp = np.asarray(a.value(op["input"], k, "f"), dtype=complex)
        target = np.asarray(a.value(op["target"], k, "i"), dtype=complex)
        win = a.value(op.get("window"), k, "f")
        amp, pin, pout, kk, t = model.amp_phase(self.inp, target, win)
        self.region = signal_region(geo)
        x, y = geo.fourier_grid()
        phase = model.total_phase(x, y, s["p"] * s["px"], s["theta"], pin, pout, self.neg)
        kw = op.get("kw", {})
        # the light available: the target, restricted to where there is a beam (and to the window)
        self.goal = strength(self.method, kw) / kk * model.to_image(np.where(np.abs(self.inp) > 0, t, 0.0))
        self.norm = float(np.sqrt((np.abs(self.goal[self.region]) ** 2).sum()))
        noise = 0.0
        if self.method == "random":
            p, tol, _ = probability(a, k, op)
            var = float((np.abs(self.inp) ** 2 * p * (1 - p)).sum()) / self.inp.size ** 2
            noise = math.sqrt(var * int(self.region.sum()))
            best = p
        elif self.method == "ifta":
            w = a.value(kw["signal_window"], k, "i")
            best = model.ifta(amp, phase, self.inp, w, kw["N"], kw["s"]) > 0.5
        else:
            best = model.ideal(amp, phase)
        self.noise = noise / self.norm if self.norm > 0 else np.inf
        self.best = self.error(best)

    def error(self, mirrors):
        m = light(self.geo, self.inp, mirrors, self.neg)
        return float(np.sqrt((np.abs(m - self.goal)[self.region] ** 2).sum())) / self.norm if self.norm > 0 else np.inf

    @property
    def expected(self):
        return math.hypot(self.best, self.noise)

    @property
    def limit(self):
        return math.hypot(1.3 * self.best, 1.6 * self.noise) + 0.05

    @property
    def usable(self):
        return np.isfinite(self.expected) and self.expected < JUDGED


class LightRun(ctl.CtlRun):
    """Device part: images are holograms of this session."""
    patterns = None

    def make_images(self, op):
        imgs = [np.array(self.patterns[i]) for i in op["imgs"]]
        return imgs, [self.patterns[i] if op.get("layout") == "own" else ctl.as_passed(m, op.get("layout", "C")) for i, m in zip(op["imgs"], imgs)]

    def shown(self):
        m = self.mirrors()
        if m is None:
            return None
        return ~m if self.invert else m.copy()


def stored(img, layout):
    img = np.array(img)
    if layout == "reversed":
        return img[::-1, ::-1].copy()[::-1, ::-1]
    if layout == "columns":
        return img.T.copy().T
    return ctl.as_passed(img, layout)


def packed(pattern):
    out, byte, n = bytearray(), 0, 0
    for v in np.asarray(pattern).ravel():
        byte = byte << 1 | int(bool(v))
        n += 1
        if n == 8:
            out.append(byte)
            byte = n = 0
    if n:
        out.append(byte << (8 - n))
    return bytes(out)


class C20(Property):
    id = "C20"
    quick_runs = 260
    thorough_runs = 8000
    collect_every = 5
    technique = ("deterministic simulation of the whole chain: hologram calculation under scripted or seeded draws and failures, real controllers on simulated devices under "
                 "faults, retries and triggers, and the light of what the mirrors show judged by independent Fourier optics")
    rule = ("A case is a seeded session: 1-2 DMDs of the device's size, 3-8 holograms by one or two methods for random beams (also underflowing ones with a window), targets, gratings and orders, with failing "
            "attempts before; the patterns are packed and loaded singly or in sets into an ALP or Luxbeam, with device faults, retries, re-initialisation and triggers. "
            "The diffracted light is judged at the mirrors after every load and trigger. Non-trivial: at least two mirror states judged.")
    real = ["pySLM2.slm, pySLM2._lib, pySLM2.profile", "pySLM2.util.controller", "TensorFlow kernels", "TensorFlow random source (a third of the cases)"]
    stub = ["ALP and Luxbeam bindings and devices", "random source (two thirds of the cases)", "clock, triggers", "the optics after the mirrors"]
    assumptions = ["device models as for C01", "requests whose expected error is above 50 % (noise of the method, overlap of orders) are not judged"]
    state_measure = "hash of (method, order sign, device family, inversion, load kind, fault kind, precision)"
    level_note = ("Seeded search over sessions. The light is compared with the request, not with the pattern, so any step of the chain may be at fault. The tolerance is the "
                  "method's own error (reference model) times 1.3, its sampling noise times 1.6, plus 5 %. Trusts the device models and the float64 optics.")

    def generate(self, seed, tier):
        r = rand("C20", seed)
        s = gen.slm_spec(r, "dmd", sizes=SIZES, mid=0.08, big=0.01)
        s["p"] = r.choice([3.0, 3.5, 4.0, 5.0, 5.5])
        s["neg"] = r.random() < 0.5
        slms = [s]
        if r.random() < 0.4:
            slms.append(dict(s, neg=not s["neg"]) if r.random() < 0.5 else dict(s, theta=r.choice([0.0, 0.3, math.pi / 4, 1.1, -0.7]), p=r.choice([3.5, 4.0, 5.0])))
        fam = r.choice(["alp", "lux"])
        mem = r.choice([4, 4, 5, 64])
        plan = {"bits": r.choice([32, 64]), "fft": r.choice(["np", "tf"]), "slms": slms, "source": r.choice(["seam", "seam", "real"]), "seed": r.randrange(10 ** 6),
                "family": fam, "dev": {"w": s["Nx"], "h": s["Ny"], "memory": mem, "freeseq_forgets": r.random() < 0.3},
                "ctrl": {"invert": r.random() < 0.4, "timeout": r.choice([None, 1.0])}}
        methods = r.choice([("random",), ("random",), ("random", "simple"), ("random", "ideal"), ("ifta",), ("ideal",)])
        rate = r.choice([0, 0.2, 0.5])
        beam = gen.bright_beam(r, s)
        ops, ready, ident = [], [], 0
        for _ in range(r.randint(3, 8)):
            k = r.randrange(len(slms))
            how = "array" if r.random() < 0.85 else r.choice(["tensor", "profile"])
            op = gen.calc(r, k, slms[k], methods, how)
            if r.random() < 0.7:
                op["input"] = gen.as_arg(r, beam, how)
            else:
                op["input"] = gen.as_arg(r, gen.bright_beam(r, slms[k]), how)
            if r.random() < 0.7:
                op.pop("window", None)
            if r.random() < 0.12:                    # a small beam whose tail underflows, and a window that keeps to where there is light
                L = gen.extent(slms[k], "f")[0]
                w = round(r.uniform(0.08, 0.14), 3) * L
                z = {"t": "zern", "a": round(r.uniform(0.2, 0.8), 3), "radius": 1.5 * L, "n": 2, "m": r.choice([-2, 0, 2]), "norm": True, "extra": True}
                op["input"] = gen.as_arg(r, {"t": "mul", "a": {"t": "sg", "x0": 0.0, "y0": 0.0, "a": 1.0, "w": w, "p": 1.0}, "b": {"t": "cplx", "a": z}}, "array")
                op["window"] = gen.as_arg(r, {"t": "circwin", "x0": 0.0, "y0": 0.0, "r": 1.7 * gen.EDGE * w}, "array")
                op["narrow"] = True
            if op["method"] == "ifta":
                L = s["wl"] * s["f"] / (s["p"] * s["px"])
                G = (math.cos(slms[k]["theta"]) * L * s["p"] / slms[k]["p"], math.sin(slms[k]["theta"]) * L * s["p"] / slms[k]["p"])
                q = 1.0 if slms[k]["neg"] else -1.0
                c = [{"t": "circwin", "x0": o * q * G[0], "y0": o * q * G[1], "r": 0.35 * gen.EDGE * L} for o in (1, -1)]
                op["kw"] = {"N": r.choice([6, 10, 20]), "s": r.choice([1.0, 0.9]), "signal_window": gen.as_arg(r, {"t": "add", "a": c[0], "b": c[1]}, "array")}
            op["id"] = ident
            if r.random() < rate:
                op["fault"] = r.choice([gen.call_fault(r, 30), gen.rng_fault(r), gen.fft_fault(r, 2)])
            op["pack"] = r.random() < 0.5
            op["pack_layout"] = r.choice(["own", "own", "F", "strided", "readonly", "reversed", "columns"])
            if r.random() < 0.2:                     # something else was on the modulator before
                ops.append(r.choice([{"op": "on", "slm": k}, {"op": "off", "slm": k}, gen.patch(r, k, slms[k], ("random",), "array")]))
            ops.append(op)
            if op["method"] == "ideal":
                ident += 1
                continue
            ready.append(ident)
            ident += 1
            if r.random() < 0.75:
                n = 1 if r.random() < 0.5 else r.randint(1, min(4, len(ready)))
                imgs = [ready[-1]] + [r.choice(ready) for _ in range(n - 1)]
                r.shuffle(imgs)
                imgs = list(dict.fromkeys(imgs))
                load = {"op": "load", "imgs": imgs, "single": len(imgs) == 1 and r.random() < 0.7, "layout": r.choice(["own", "own", "C", "F", "strided", "readonly"])}
                if r.random() < rate:
                    load["faults"] = [ctl.gen_fault(r, fam, 11 if fam == "alp" else 5 + n)]
                if r.random() < 0.15:
                    load["trig"] = [ctl.gen_trig(r, fam, 8)]
                load["hold"] = r.random() < 0.3
                ops.append(load)
        plan["ops"] = ops
        return plan

    def execute(self, plan):
        res = Result()
        real = plan["source"] == "real"
        a = lab.Lab(plan, seam=not real, seed=plan["seed"] if real else None, result=res)
        dev = LightRun(dict(plan, ops=[]))
        dev.patterns = {}
        dev.mod = ctl.fresh_controllers()
        ctl.CURRENT[0] = dev.world
        self.judged = 0
        requests = {}
        try:
            dev.construct({})
            dev.op_init({})
            for n, op in enumerate(plan["ops"]):
                if op["op"] == "load":
                    self.load(plan, dev, op, requests, res, n)
                elif op["op"] == "calc":
                    self.calc(plan, a, dev, op, requests, res, n)
                else:
                    a.do(op)
                if res.viol:
                    break
        finally:
            ctl.CURRENT[0] = None
        w = dev.world
        for key, v in w.stats.items():
            res.count(key, v)
        res.sim_us = w.now
        for props, cls, msg in dev.viol:
            res.count("other_property_violations:" + props[0])
        res.record(sorted(dev.viol))
        res.record(len(w.log), w.log[-1:] if w.log else "")
        for k, p in dev.patterns.items():
            res.record(k, lab.summary(p))
        res.count("mirror_states_judged", self.judged)
        res.nontrivial = self.judged >= 2
        return res

    def calc(self, plan, a, dev, op, requests, res, n):
        k = op["slm"]
        if op.get("fault"):
            a.do(op)
        out = a.do({x: y for x, y in op.items() if x != "fault"})
        where = "op %d (hologram %d, %s%s)" % (n, op["id"], op["method"], ", negative order" if plan["slms"][k].get("neg") else "")
        if out.kind != "ok":
            res.violate("raises", "%s raised %s: %s" % (where, out.exc_type, str(out.exc)[:200]))
            return
        pat = a.pattern(k)
        if np.shape(pat) != (plan["slms"][k]["Ny"], plan["slms"][k]["Nx"]):
            res.violate("shape", "%s: pattern of shape %s" % (where, np.shape(pat)))
            return
        if op["method"] != "simple":
            requests[op["id"]] = q = Request(a, k, op)
            self.look(res, q, np.asarray(pat), where + ": the computed pattern", op.get("narrow"))
            res.state("calc", op["method"], q.neg, plan["bits"], plan["source"])
        if op.get("pack") and op["method"] != "ideal":
            if op.get("pack_layout", "own") != "own":           # the same pattern, assigned in another memory layout
                a.slms[k].dmd_state = pat = stored(pat, op["pack_layout"])
            b = a.slms[k].pack_dmd_state()
            if bytes(b) != packed(pat):
                res.violate("packed", "%s: the packed bytes are not the pattern (%d bytes, expected %d; layout of the array: %s)" % (
                    where, len(b), len(packed(pat)), op.get("pack_layout", "own")))
            res.count("packed")
        dev.patterns[op["id"]] = pat

    def look(self, res, q, mirrors, where, op_narrow=False):
        """Does this pattern produce the requested light?"""
        if not q.usable:
            res.count("requests_not_judged")
            return
        e = q.error(mirrors)
        self.judged += 1
        res.stats["worst_margin_permille"] = max(res.stats.get("worst_margin_permille", 0), int(1000 * e / q.limit) if np.isfinite(e) else 10 ** 6)
        if op_narrow:
            res.count("underflowing_beams_judged")
        if not e <= q.limit:
            res.violate("wrong_light", "%s gives light that deviates by %.0f %% from the requested beam (expected %.0f %%, allowed %.0f %%)" % (
                where, 100 * e, 100 * q.expected, 100 * q.limit))

    def load(self, plan, dev, op, requests, res, n):
        op = dict(op, imgs=[i for i in op["imgs"] if i in dev.patterns])
        if not op["imgs"] or dev.world is None:
            return
        op["single"] = op["single"] and len(op["imgs"]) == 1
        out = dev.op_load(op)
        trig = bool(op.get("trig"))
        fault = (op.get("faults") or [{}])[0].get("kind")
        clean = {x: y for x, y in op.items() if x not in ("faults", "trig")}
        if out != "ok":
            res.count("retries")
            if dev.ctrl is None or not dev.mode:
                dev.ensure()
                dev.op_init({})
            out = dev.op_load(clean)
            trig = False
            if out != "ok":
                for _ in range(2):
                    if dev.op_close({}) == "ok":
                        break
                dev.op_init({})
                out = dev.op_load(clean)
        res.state("load", plan["family"], plan["ctrl"]["invert"], op["single"], len(op["imgs"]), fault, plan["bits"])
        if out != "ok":
            res.count("not_loaded")
            return
        where = "op %d (load of holograms %s on the %s)" % (n, op["imgs"], plan["family"])
        frames = []
        if len(op["imgs"]) == 1 and op["single"]:
            frames.append(dev.shown())
            if op.get("hold"):
                dev.op_wait({"dt": 100000})
                dev.op_pulses({"n": 2})
                frames.append(dev.shown())
            for f in frames:
                if f is None:
                    res.violate("dark", where + ": the mirrors show nothing")
                elif op["imgs"][0] in requests:
                    self.look(res, requests[op["imgs"][0]], f, where + ": the pattern on the mirrors")
                elif not np.array_equal(f, dev.patterns[op["imgs"][0]]):
                    res.violate("pattern", where + ": the mirrors show another pattern")
            return
        if dev.shown() is not None:
            frames.append(dev.shown())
        for _ in range(len(op["imgs"])):
            dev.op_pulses({"n": 1, "gap": 1500})
            if dev.shown() is not None:
                frames.append(dev.shown())
        for i in op["imgs"]:
            q = requests.get(i)
            if q is None:
                if not any(np.array_equal(f, dev.patterns[i]) for f in frames):
                    res.violate("pattern", "%s: hologram %d never appears on the mirrors within %d triggers" % (where, i, len(op["imgs"])))
                continue
            if not q.usable:
                res.count("requests_not_judged")
                continue
            errs = [q.error(f) for f in frames]
            self.judged += 1
            if not errs or not min(errs) <= q.limit:
                res.violate("wrong_light", "%s: no pattern shown within %d triggers gives the light of hologram %d (best deviation %.0f %%, allowed %.0f %%)" % (
                    where, len(op["imgs"]), i, 100 * min(errs or [9.99]), 100 * q.limit))


PROPS = {"C20": C20}

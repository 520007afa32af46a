"""C08: simulations under failing and interrupted propagations and reads."""
import numpy as np

from . import gen, lab, model
from .core import Property, Result
from .p_update import describe
from .rng import rand

FIELDS = ("input_field", "output_field", "image_plane_field")
TOL = {32: 1e-4, 64: 1e-11}


class Reference:
    """What one propagation gives, by the reference model (double precision)."""

    def __init__(self, geo, padx, pady, beam, pattern, kind):
        pad = [(pady, pady), (padx, padx)]
        mod = np.exp(1j * np.asarray(pattern, dtype=complex)) if kind == "lcos" else np.asarray(pattern, dtype=complex)
        beam = np.asarray(beam, dtype=complex)
        self.input = np.pad(beam, pad)
        self.output = np.pad(beam * mod, pad)
        ny, nx = self.input.shape
        self.image = model.to_image(self.output) * (nx * ny * geo.px ** 2 / geo.scale)
        self.finite = bool(np.isfinite(self.output).all())       # an ideal pattern for a beam that underflows is not
        self.norm = nx * ny * geo.px ** 2 / geo.scale
        self.area_f = geo.px ** 2
        self.area_i = geo.scale ** 2 / (nx * ny) / geo.px ** 2
        self.x, self.y = geo.image_grid(padx, pady)
        self.blocked = np.zeros(self.image.shape, dtype=bool)
        self.unsure = np.zeros(self.image.shape, dtype=bool)

    def block(self, r):
        d = np.sqrt(self.x ** 2 + self.y ** 2)
        self.blocked |= d < r
        self.unsure |= np.abs(d - r) < 1e-5 * max(r, 1e-30)


def check_snapshot(snap, ref, bits, where):
    """Messages of everything in the snapshot that does not follow from the one propagation `ref` (None: cleared)."""
    bad = []
    if ref is None:
        have = [k for k, v in snap.items() if v is not None]
        if have:
            bad.append(("not_absent", "%s: %s reported although there is no propagation" % (where, ", ".join(have))))
        return bad
    missing = [k for k, v in snap.items() if v is None]
    if missing:
        bad.append(("missing", "%s: %s absent after a propagation" % (where, ", ".join(missing))))
        return bad
    if not ref.finite:
        return bad
    tol = TOL[bits]
    scale = max(1e-34 / tol if bits == 32 else 1e-300, float(np.abs(ref.input).max()))
    if not lab.close(snap["input_field"], ref.input, tol, scale):
        bad.append(("wrong_input", "%s: the input field is not the propagated beam" % where))
    if not lab.close(snap["output_field"], ref.output, tol, scale):
        bad.append(("wrong_output", "%s: the output field is not the beam times the pattern of that propagation" % where))
    img = np.array(snap["image_plane_field"])
    want = np.where(ref.blocked, 0, ref.image)
    if img.shape != want.shape:
        bad.append(("wrong_image", "%s: the image field has shape %s instead of %s" % (where, img.shape, want.shape)))
        return bad
    img = np.where(ref.unsure, want, img)
    iscale = max((1e-34 if bits == 32 else 1e-290) * ref.norm / tol, float(np.abs(ref.image).max()))       # fields below this underflow
    if not lab.close(img, want, tol * 4, iscale):
        bad.append(("wrong_image", "%s: the image field is not the Fourier transform of the output field of that propagation" % where))
    if not np.all(img[ref.blocked & ~ref.unsure] == 0):
        bad.append(("wrong_image", "%s: light left within the blocked radius" % where))
    for f, i, p, area in (("input_field", "input_intensity", "get_input_power", ref.area_f), ("output_field", "output_intensity", "get_output_power", ref.area_f),
                          ("image_plane_field", "image_plane_intensity", "get_image_plane_power", ref.area_i)):
        want = np.abs(np.asarray(snap[f], dtype=complex)) ** 2
        tiny = 1e-36 if bits == 32 else 1e-300                 # intensities below this underflow
        if not lab.close(snap[i], want, tol, max(tiny / tol, float(want.max()) if want.size else 0.0)):
            bad.append(("intensity", "%s: %s is not the intensity of %s" % (where, i, f)))
        total = float(want.sum() * area)
        if not abs(snap[p] - total) <= 10 * tol * abs(total) + tiny * area * want.size:
            bad.append(("power", "%s: %s gives %g, the reported field has %g" % (where, p, snap[p], total)))
    return bad


class C08(Property):
    id = "C08"
    quick_runs = 320
    thorough_runs = 5000
    collect_every = 5
    rechecks = recheck_workers = 4
    technique = "deterministic simulation of sessions with failures and interrupts injected into propagations, reads and pattern changes; reference optics as oracle"
    rule = ("A case is a seeded session of 20-60 operations on 1-3 simulations (with padding) of 1-2 modulators: propagations (about half with an interrupt or "
            "allocation failure at a chosen Python call, an FFT failure, or an invalid / failing beam), pattern changes between propagations, zero-order blocks, "
            "clears, interrupted reads. After each operation all results of all simulations are read. Non-trivial: at least two faults made a call fail and two propagations succeeded.")
    real = ["pySLM2.simulation", "pySLM2.slm", "pySLM2.profile", "TensorFlow kernels", "numpy FFT"]
    stub = ["random source (scripted)", "failures"]
    assumptions = ["interrupts land on Python calls of the library outside graph tracing"]
    state_measure = "hash of (operation, fault kind and place, outcome, old/new relation, modulator kind, padding)"
    level_note = ("Seeded search over operations x fault places; every reported array must belong to one propagation according to a float64 reference of the optics, "
                  "failed calls must leave the previous results bit for bit or the complete new ones. Interrupts land on Python call boundaries.")

    def generate(self, seed, tier):
        r = rand("C08", seed)
        slms = [gen.slm_spec(r, mid=0.06, big=0.012) for _ in range(r.choice([1, 1, 2]))]
        sims = []
        for _ in range(r.randint(1, 3)):
            sims.append({"slm": r.randrange(len(slms)), "padx": r.choice([0, 0, 3, 8]), "pady": r.choice([0, 0, 2, 5])})
        plan = {"bits": r.choice([32, 32, 64]), "fft": r.choice(["np", "np", "tf"]), "slms": slms, "sims": sims}
        ops = []
        for _ in range(gen.cap(r.randint(20, 60), slms)):
            i = r.randrange(len(sims))
            k = sims[i]["slm"]
            s = slms[k]
            q = r.random()
            if q < 0.5:
                how = r.choice(["array", "array", "array", "tensor", "profile"])
                op = {"op": "prop", "sim": i, "input": gen.as_arg(r, gen.beam(r, s), how)}
                f = r.random()
                if f < 0.3:
                    op["fault"] = gen.call_fault(r, r.choice([8, 16, 26]))
                elif f < 0.42 and plan["fft"] == "np":
                    op["fault"] = gen.fft_fault(r, 1)
                elif f < 0.55:
                    op["badinput"] = gen.bad_arg(r)
            elif q < 0.68:
                k = r.randrange(len(slms))
                op = {"op": "assign", "slm": k, "seed": r.randrange(10 ** 9), "gray": r.random() < 0.3} if r.random() < 0.7 else (
                    {"op": r.choice(["on", "off"]), "slm": k} if slms[k]["kind"] == "dmd" else {"op": "reset", "slm": k})
            elif q < 0.80 and s["kind"] == "dmd":
                L = s["wl"] * s["f"] / (max(s["Nx"], s["Ny"]) * s["px"])
                op = {"op": "block", "sim": i, "r": r.choice([None, None, round(r.uniform(0.5, 6), 2) * gen.EDGE * L])}
                if r.random() < 0.35:
                    op["fault"] = gen.call_fault(r, 12)
            elif q < 0.86:
                op = {"op": "clear", "sim": i}
            elif q < 0.93:
                op = {"op": "read", "sim": i, "fault": gen.call_fault(r, 5),
                      "what": r.choice(["input_intensity", "output_intensity", "image_plane_intensity", "get_input_power", "get_output_power", "get_image_plane_power"])}
            else:
                op = {"op": "grid", "sim": i}
            ops.append(op)
        plan["ops"] = ops
        return plan

    def shrink_op(self, op):
        if "badinput" in op:
            yield {k: v for k, v in op.items() if k != "badinput"}
        if op.get("fault"):
            yield {k: v for k, v in op.items() if k != "fault"}
            if op["fault"]["kind"] == "call" and op["fault"]["at"] > 0:
                yield dict(op, fault=dict(op["fault"], at=op["fault"]["at"] // 2))
        if op.get("input", {}).get("as") in ("profile", "tensor"):
            yield dict(op, input=dict(op["input"], **{"as": "array"}))

    def reference(self, a, i, op):
        s = a.simspec[i]
        k = s["slm"]
        return Reference(a.geo[k], s["padx"], s["pady"], a.value(op["input"], k, "f"), np.array(a.pattern(k)), a.geo[k].spec["kind"])

    def execute(self, plan):
        res = Result()
        a = lab.Lab(plan, result=res)
        bits = a.bits
        n = len(plan["sims"])
        refs = [None] * n
        snaps = [a.snap_sim(i) for i in range(n)]
        failures = good = 0
        for num, op in enumerate(plan["ops"]):
            t = op["op"]
            where = "after op %d %s" % (num, describe(op))
            kind = rel = None
            if t in ("assign", "on", "off", "reset"):
                a.do(op)
            elif t == "grid":
                gx, gy = a.sims[op["sim"]].image_plane_padded_grid
                res.record(lab.summary(gx), lab.summary(gy))
            else:
                i = op["sim"]
                prev = snaps[i]
                if t == "read":
                    sim = a.sims[i]
                    fn = getattr(sim, op["what"]) if op["what"].startswith("get_") else (lambda: getattr(sim, op["what"]))
                    if refs[i] is None and op["what"].startswith("get_"):
                        fn = lambda: None
                    out = a.call(op, fn)
                    kind = out.kind
                    if kind == "ok" and out.value is not None and op["what"] in prev and not op["what"].startswith("get_"):
                        if not lab.same(out.value, prev[op["what"]]):
                            res.violate("unstable", "%s: reading %s twice gives different values" % (where, op["what"]))
                elif t == "clear":
                    out = a.do(op)
                    refs[i] = None
                    if out.kind != "ok":
                        res.violate("clear_fails", "%s: clear raised %s" % (where, out.exc_type))
                else:
                    bad = op.get("badinput")
                    v = dict(op, input=bad, badarg=True) if bad is not None else op
                    out = a.do(v)
                    kind = out.kind
                    if kind != "ok":
                        failures += 1
                        snap = a.snap_sim(i)
                        expected_refusal = t == "block" and refs[i] is None
                        if expected_refusal and kind == "error" and not isinstance(out.exc, TypeError) and out.fired is None:
                            res.violate("refusal", "%s: blocking before a propagation raised %s instead of TypeError" % (where, out.exc_type))
                        if not lab.same_snap(snap, prev):
                            rel = "changed"
                            if bad is not None or out.fired is None or out.fired[0] != "call":
                                res.violate("failed_but_changed", "%s: the call failed with %s but changed %s" % (where, out.exc_type, changed(snap, prev)))
                            else:
                                ref = self.after(a, i, op, refs[i])
                                wrong = check_snapshot(snap, ref, bits, where + " (interrupted)")
                                if wrong:
                                    res.violate("torn", "%s: interrupted by %s and left neither the previous nor the new results: %s changed; %s" % (
                                        where, out.exc_type, changed(snap, prev), wrong[0][1]))
                                else:
                                    rel = "new"
                                    refs[i] = ref
                        else:
                            rel = "old"
                        if out.fired is None and not expected_refusal and bad is None:
                            res.violate("raises", "%s: raised %s without a fault: %s" % (where, out.exc_type, str(out.exc)[:200]))
                    else:
                        if bad is not None:
                            res.count("invalid_argument_accepted")
                            break
                        if t == "block" and refs[i] is None:
                            res.violate("refusal", "%s: blocking the zeroth order worked before any propagation" % where)
                        else:
                            refs[i] = self.after(a, i, op, refs[i])
                        good += t == "prop"
            for j in range(n):
                snap = a.snap_sim(j)
                touched = "sim" in op and op["sim"] == j and t in ("prop", "block", "clear")
                if not touched and not lab.same_snap(snap, snaps[j]):
                    res.violate("changed_by_others", "%s: results of simulation %d changed (%s) although nothing was propagated there" % (where, j, changed(snap, snaps[j])))
                if touched:
                    for cls, msg in check_snapshot(snap, refs[j], bits, where):
                        res.violate(cls, msg)
                snaps[j] = snap
                if touched:
                    res.record(num, j, [(k2, lab.summary(v2)) for k2, v2 in sorted(snap.items())], kind)
            f = op.get("fault") or {}
            res.state(t, f.get("kind"), f.get("at"), f.get("exc"), kind, rel, plan["slms"][plan["sims"][op["sim"]]["slm"]]["kind"] if "sim" in op else None)
            if res.viol:
                break
        res.nontrivial = failures >= 2 and good >= 2
        return res

    def after(self, a, i, op, ref):
        if op["op"] == "prop":
            return self.reference(a, i, op)
        if ref is None:
            return None
        s = a.geo[a.simspec[i]["slm"]].spec
        new = Reference.__new__(Reference)
        new.__dict__.update(ref.__dict__)
        new.blocked, new.unsure = ref.blocked.copy(), ref.unsure.copy()
        new.block(op["r"] if op["r"] is not None else s["wl"] * s["f"] / (s["p"] * s["px"]) / 2)
        return new


def changed(a, b):
    return ", ".join(k for k in a if not lab.same(a[k], b[k])) or "nothing"


PROPS = {"C08": C08}

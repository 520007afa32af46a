"""C14: results of a long-lived session against fresh sessions with the same current inputs."""
import gc

import numpy as np

from . import gen, lab, model
from .core import Property, Result
from .p_update import describe
from .rng import rand


def slm_variants(r):
    """A few modulators that differ in one or two settings only (caches that forget one of them confuse them)."""
    s = gen.slm_spec(r, sizes=[(24, 16), (16, 24), (20, 20), (21, 16)], mid=0.06, big=0.015)
    out = [s]
    for _ in range(r.choice([0, 1, 1, 2])):
        q = dict(s)
        what = r.choice(["px", "wl", "f", "swap", "grating", "kind", "neg", "same"])
        if what == "px":
            q["px"] = s["px"] * 1.4
        elif what == "wl":
            q["wl"] = s["wl"] * 1.3
        elif what == "f":
            q["f"] = s["f"] * 2
        elif what == "swap":
            q["Nx"], q["Ny"] = s["Ny"], s["Nx"]
        elif what == "kind":
            q["kind"] = "lcos" if s["kind"] == "dmd" else "dmd"
        if q["kind"] == "dmd":
            q.setdefault("p", 4.0)
            q.setdefault("theta", 0.3)
            q.setdefault("neg", False)
            if what == "grating":
                q["p"], q["theta"] = q["p"] + 1.3, q["theta"] + 0.4
            if what == "neg":
                q["neg"] = not q["neg"]
        out.append(q)
    return out


class C14(Property):
    id = "C14"
    quick_runs = 110
    thorough_runs = 3500
    collect_every = 4
    rechecks = recheck_workers = 4
    technique = "deterministic simulation of long mixed sessions with failures; every probed result is recomputed by a fresh instance of the library (differential oracle)"
    rule = ("A case is a seeded session of 25-60 operations on 1-3 nearly identical modulators, 2-4 simulations, live profiles and user arrays that are edited in place or "
            "dropped and recreated; parameters, order sign, FFT implementation, method, steepness, iterations, windows, radii change between calls; calls fail in between. "
            "Up to eight results per session are recomputed, each in a fresh session given only the current inputs. Non-trivial: at least three probes after a change.")
    real = ["pySLM2 (slm, simulation, profile, window, analysis, _lib, _backend), twice", "TensorFlow kernels", "numpy FFT"]
    stub = ["random source (scripted)", "failures"]
    assumptions = ["binary results may differ in 0.5% of the pixels, others by 1e-4 (float32) or 1e-9 (float64): rounding only"]
    state_measure = "hash of (probed operation, method, what changed since the last probe of its kind, failures so far)"
    level_note = ("Seeded search; the oracle is the library itself in a fresh session, so an error present in both is not seen here (it is in C09-C13, C15, C20).")

    # ---------------------------------------------------------------------------------------------------- generation
    def generate(self, seed, tier):
        r = rand("C14", seed)
        slms = slm_variants(r)
        sims = [{"slm": r.randrange(len(slms)), "padx": r.choice([0, 0, 3]), "pady": r.choice([0, 2])} for _ in range(r.randint(1, 3))]
        profs = [gen.beam(r, slms[0], False, False), gen.leaf(r, slms[0], "f", kinds=["zern"]), gen.target(r, slms[0])]
        while profs[2]["t"] == "add":
            profs[2] = gen.target(r, slms[0])
        R = lambda i: {"t": "ref", "id": i}
        L, px = gen.extent(slms[0], "i")
        # live combinations: their parts change, they do not
        profs.append(r.choice([{"t": "mul", "a": R(0), "b": 1.5}, {"t": "mul", "a": R(0), "b": {"t": "cplx", "a": R(1)}}, {"t": "shift", "a": R(0), "dx": 0.0, "dy": 0.1 * gen.extent(slms[0], "f")[0]}]))
        profs.append(r.choice([{"t": "shift", "a": R(2), "dx": 2.0 * px, "dy": -1.0 * px}, {"t": "rescale_x", "a": R(2), "m": 1.2}, {"t": "add", "a": R(2), "b": {"t": "shift", "a": R(2), "dx": -3.0 * px, "dy": 0.0}}]))
        profs.append(r.choice([{"t": "rmul", "a": R(1), "b": 0.5}, {"t": "neg", "a": R(1)}, {"t": "rotate", "a": R(1), "theta": 0.4}]))
        arrs = [{"slm": 0, "plane": "f", "spec": gen.beam(r, slms[0]), "cplx": True}, {"slm": 0, "plane": "i", "spec": gen.target(r, slms[0]), "cplx": True},
                {"slm": 0, "plane": "f", "spec": gen.leaf(r, slms[0], "f", kinds=["zern"])}, {"slm": 0, "noise": r.randrange(10 ** 6)}]
        for s in arrs[:3]:
            s["quant"] = r.random() < 0.5
        plan = {"bits": r.choice([32, 32, 64]), "fft": r.choice(["np", "tf"]), "slms": slms, "sims": sims, "profs": profs, "arrs": arrs}
        methods = r.choice([["random"], ["random", "ideal"], ["ideal", "simple"], ["ifta", "ideal"], ["random", "ifta"]])
        windows = r.random() < 0.4
        ops = []
        n = gen.cap(r.randint(25, 60), slms)
        while len(ops) < n:
            op = self.random_op(r, plan, methods, windows)
            before = [o for o in ops if o["op"] in PROBES]
            if before and r.random() < 0.3:
                old = r.choice(before[-8:])
                named = [old[f]["id"] for f in ("input", "target", "window", "pin", "pout", "arg") if isinstance(old.get(f), dict) and old[f].get("as") == "named"] + ([old["arr"]] if "arr" in old else [])
                if named and r.random() < 0.5:            # the same call after the caller moved the values in one of its arrays
                    ops.append({"op": "edit_arr", "id": r.choice(named), "new": {"tweak": r.choice(["flip", "lr", "ud", "inner", "roll", "permute", "pixel"]), "k": r.randrange(10 ** 6)}})
                    op = {k: v for k, v in old.items() if k != "fault"}
                else:
                    op = self.nearly(r, old, slms)
            ops.append(op)
        # probe a few results, late ones preferred
        cands = [i for i, o in enumerate(ops) if o["op"] in PROBES]
        r.shuffle(cands)
        cands.sort(key=lambda i: i < n // 3)
        for i in cands[:r.randint(4, 8)]:
            ops[i]["probe"] = True
            ops[i].pop("fault", None)
        plan["ops"] = ops
        return plan

    def nearly(self, r, op, slms):
        """The same call again, or with one argument changed a little."""
        op = {k: v for k, v in op.items() if k != "fault"}
        if r.random() < 0.35:
            return op
        t = op["op"]
        held = [f for f in ("input", "target", "window", "amp", "pin", "pout") if isinstance(op.get(f), dict) and op[f].get("as") == "array"]
        if held and r.random() < 0.5:
            f = r.choice(held)
            op[f] = dict(op[f], move=None if op[f].get("move") and r.random() < 0.5 else r.choice(["lr", "ud", "turn", "roll", "inner", "permute"]))
        elif t == "patch":
            f = r.choice(["i", "j", "d", "pin", "pout"])
            if f in ("pin", "pout"):
                op[f] = {"as": "number", "v": r.choice([0.7, 1.7, 0, -2.0])}
            else:
                op[f] = max(op[f] + r.choice([-1, -0.5, 0.25, 0.5, 1, 2]), 0.5 if f == "d" else -9)
        elif t == "grating":
            op[r.choice(["pin", "pout"])] = {"as": "number", "v": r.choice([0.7, 1.7, 0, -2.0])}
        elif t == "calc" and op["method"] == "random":
            op["kw"] = dict(op["kw"], r=r.choice([1.0, 1.4, 3.0, 3.3, 10.0]))
        elif t in ("calc", "hologram") and "N" in op["kw"]:
            op["kw"] = dict(op["kw"], N=max(1, op["kw"]["N"] + r.choice([-1, 1, 2])))
        elif t == "prop" and "block" in op:
            s = slms[0]
            op["block"] = r.choice([None, 1.2, 2.2, 2.6, 3.3])
            op["block"] = op["block"] and s["wl"] * s["f"] / (s["Nx"] * s["px"]) * op["block"]
        elif t == "sample":
            op["cplx"] = not op["cplx"]
        elif t == "analysis":
            f = r.choice(["radius", "num", "extra", "trivial", "defocus", "rec"])
            op[f] = op[f] + r.choice([0.4, -0.6, 1]) if f == "radius" else 10 - op[f] if f == "num" else not op[f]
        return op

    def random_op(self, r, plan, methods, windows):
        slms, sims = plan["slms"], plan["sims"]
        k = r.choice([0, 0, r.randrange(len(slms))])
        s = slms[k]
        same = (s["Nx"], s["Ny"]) == (slms[0]["Nx"], slms[0]["Ny"])

        def pick(plane, cplx=True):
            if plane == "f":
                if r.random() < 0.3:
                    q = {"t": "ref", "id": 3}
                    return {"as": "profile", "spec": q if r.random() < 0.7 else {"t": "mul", "a": q if r.random() < 0.4 else {"t": "ref", "id": 0}, "b": r.choice([0.5, 2.0])}}
                opts = [{"as": "profile", "spec": {"t": "ref", "id": 0}}] * 2 + ([{"as": "named", "id": 0}] * 3 if same else [])
                return r.choice(opts + [dict(gen.as_arg(r, gen.beam(r, s), "array"), quant=r.random() < 0.4)])
            if r.random() < 0.25:
                return {"as": "profile", "spec": {"t": "ref", "id": 4}}
            opts = [{"as": "profile", "spec": {"t": "ref", "id": 2}}] * 2 + ([{"as": "named", "id": 1}] * 3 if same else [])
            return r.choice(opts + [dict(gen.as_arg(r, gen.target(r, s), "array"), quant=r.random() < 0.4)])

        def phase():
            if r.random() < 0.25:
                return {"as": "profile", "spec": {"t": "ref", "id": 5}}
            opts = [{"as": "profile", "spec": {"t": "ref", "id": 1}}] * 2 + ([{"as": "named", "id": 2}] * 2 if same else []) + [{"as": "number", "v": 0.7}, {"as": "number", "v": 0}]
            return r.choice(opts)
        q = r.random()
        if q < 0.34:
            if s["kind"] == "lcos":
                op = gen.hologram(r, k, s, how="array")
                op["input"] = pick("f")
                if op["method"] == "gs" and r.random() < 0.3:
                    op["target"] = {"as": "array", "spec": dict(op["target"]["spec"], a=0.5)}
            else:
                f = r.choice(["calc", "calc", "grating", "patch"])
                if f == "calc":
                    op = gen.calc(r, k, s, methods, "array")
                    op["input"], op["target"] = pick("f"), pick("i")
                    if not windows:
                        op.pop("window", None)
                else:
                    op = getattr(gen, f)(r, k, s, [m for m in methods if m != "ifta"] or ["random"], "array")
                    op["pin"], op["pout"] = phase(), phase()
            f = r.random()
            if f < 0.12:
                op["fault"] = gen.call_fault(r, 24)
            elif f < 0.18 and (op["op"] in ("calc", "hologram")):
                op["fault"] = gen.fft_fault(r, 2)
            return op
        if q < 0.48:
            i = r.randrange(len(sims))
            k = sims[i]["slm"]
            s = slms[k]
            same = (s["Nx"], s["Ny"]) == (slms[0]["Nx"], slms[0]["Ny"])
            op = {"op": "prop", "sim": i, "input": pick("f")}
            if s["kind"] == "dmd" and r.random() < 0.5:
                op["block"] = r.choice([None, s["wl"] * s["f"] / (s["Nx"] * s["px"]) * r.choice([2.2, 3.3])])
            if r.random() < 0.15:
                op["fault"] = gen.call_fault(r, 20)
            return op
        if q < 0.60:
            i = r.choice([0, 1, 2])
            spec = plan["profs"][i]
            L, px = gen.extent(slms[0], "f" if i < 2 else "i")
            par = "a" if spec["t"] in ("zern", "mul") else r.choice(["x0", "y0", "a", "w"]) if spec["t"] != "lg" else None
            if par is None or spec["t"] == "mul":
                return {"op": "edit_arr", "id": 3, "new": {"noise": r.randrange(10 ** 6)}}
            scale = L if i < 2 else 4 * px
            if r.random() < 0.25:
                return {"op": "setp", "prof": i, "param": par, "value": spec[par] * (r.choice([1.15, 0.8]) if par == "w" else r.choice([-1.0, 1.5]))}
            v = {"x0": round(r.uniform(-0.4, 0.4), 3) * scale, "y0": round(r.uniform(-0.4, 0.4), 3) * scale, "a": round(r.uniform(0.3, 1.6), 3), "w": round(r.uniform(0.5, 1.2), 3) * scale}[par]
            return {"op": "setp", "prof": i, "param": par, "value": v}
        if q < 0.70:
            i = r.randrange(4)
            if r.random() < 0.35:
                return {"op": "edit_arr", "id": i, "new": {"tweak": r.choice(["pixel", "neg", "flip", "swap", "scale"]), "k": r.randrange(10 ** 6)}}
            new = {"noise": r.randrange(10 ** 6)} if i == 3 else {"spec": [gen.beam(r, slms[0]), gen.target(r, slms[0]), gen.leaf(r, slms[0], "f", kinds=["zern"])][i]}
            return {"op": r.choice(["edit_arr", "edit_arr", "recreate_arr"]), "id": i, "new": new}
        if q < 0.76:
            return {"op": r.choice(["neg", "neg", "fft"]), "slm": k, "to": r.choice(["np", "tf"])}
        if q < 0.82:
            return {"op": "recreate", "what": r.choice(["slm", "sim"]), "i": r.randrange(len(sims)), "slm": k, "many": r.random() < 0.05}
        if q < 0.9:
            return {"op": "sample", "slm": k, "plane": r.choice(["f", "i"]), "arg": r.choice([{"as": "profile", "spec": {"t": "ref", "id": r.choice([0, 3])}}, {"as": "profile", "spec": {"t": "ref", "id": r.choice([1, 5])}},
                    {"as": "number", "v": 0.5}] + ([{"as": "named", "id": 3}] if same else [])), "cplx": r.random() < 0.5}
        if q < 0.95:
            return {"op": "analysis", "arr": 3, "slm": 0, "radius": r.choice([5, 6.5, 8, 10]), "num": r.choice([4, 6]), "extra": r.random() < 0.4, "trivial": r.random() < 0.5,
                    "defocus": r.random() < 0.5, "rec": r.random() < 0.5}
        return {"op": "grids", "slm": k, "sim": r.randrange(len(sims))}

    def shrink_op(self, op):
        if op.get("fault"):
            yield {k: v for k, v in op.items() if k != "fault"}
        if op.get("probe"):
            yield {k: v for k, v in op.items() if k != "probe"}

    # ----------------------------------------------------------------------------------------------------- execution
    def execute(self, plan):
        res = Result()
        a = lab.Lab(plan, result=res)
        a.fft_now = plan["fft"]
        a.neg = {i: bool(s.get("neg")) for i, s in enumerate(plan["slms"])}
        probes = []
        changes = {}
        failed = 0
        for n, op in enumerate(plan["ops"]):
            t = op["op"]
            frozen = self.freeze(a, op) if op.get("probe") else None
            kind, value = run_op(a, op)
            failed += kind != "ok"
            if t not in PROBES:
                changes[t] = n
            if frozen is not None:
                probes.append((n, frozen, kind, value))
                recent = sorted(k for k, v in changes.items() if n - v < 12)
                res.state(t, op.get("method"), tuple(recent), min(3, failed))
            res.record(n, kind, digest(value))
        after_change = sum(1 for n, f, k, v in probes if any(True for _ in changes))
        for n, frozen, kind, value in probes:
            fplan, fop, pats = frozen
            b = lab.Lab(fplan)
            b.fft_now = fplan["fft"]
            for k, p in pats.items():
                if b.geo[k].spec["kind"] == "dmd":
                    b.slms[k].dmd_state = p
                else:
                    b.slms[k].slm_state = p
            kind2, value2 = run_op(b, fop)
            if kind2 != kind:
                res.violate("stale", "op %d %s ends with '%s' in the long session and '%s' in a fresh one with the same inputs (%s)" % (
                    n, describe(fop), kind, kind2, value if kind != "ok" else value2))
                break
            why = compare(value, value2, a.bits, fop)
            if why:
                res.violate("stale", "op %d %s in the long session differs from a fresh session with the same current inputs: %s" % (n, describe(fop), why))
                break
            res.count("probes")
            del b
        res.nontrivial = len(probes) >= 3 and after_change >= 3
        return res

    def freeze(self, a, op):
        """A plan for a fresh session that holds only what this operation depends on now."""
        plan = a.plan
        slms = [dict(s, **({"neg": a.neg[i]} if s["kind"] == "dmd" else {})) for i, s in enumerate(plan["slms"])]
        fop = {k: v for k, v in op.items() if k not in ("probe", "fault")}

        def arg(x):
            if not isinstance(x, dict) or "as" not in x:
                return x
            if x["as"] == "named":
                s = a.aspec[x["id"]]
                if "noise" in s:
                    return {"as": "copied", "data": a.arrs[x["id"]].copy()}
                return {"as": "copied", "data": a.arrs[x["id"]].copy()}
            if "spec" in x:
                return dict(x, spec=a.resolve(x["spec"]))
            return x
        for f in ("input", "target", "window", "amp", "pin", "pout", "arg"):
            if f in fop:
                fop[f] = arg(fop[f])
        if "kw" in fop:
            fop["kw"] = {k: arg(v) for k, v in fop["kw"].items()}
        if "arr" in fop:
            fop["data"] = a.arrs[fop["arr"]].copy()
        k = plan["sims"][op["sim"]]["slm"] if "sim" in op else op.get("slm")
        keep = {k, op.get("slm", k)}
        fplan = {"bits": plan["bits"], "fft": a.fft_now, "slms": [], "sims": []}
        fplan["only"] = sorted(x for x in keep if x is not None)
        fplan["slms"] = slms
        fplan["sims"] = plan["sims"]
        pats = {i: np.array(a.pattern(i), copy=True) for i in fplan["only"]}
        return fplan, fop, pats


PROBES = ("calc", "grating", "patch", "hologram", "prop", "sample", "analysis", "grids")


def run_op(a, op):
    """Returns (kind, value) of one operation."""
    t = op["op"]
    if t in ("calc", "grating", "patch", "hologram"):
        out = a.do(op)
        if out.kind != "ok":
            return out.kind if op.get("fault") else "error %s" % out.exc_type, str(out.exc)[:100]
        v = {"pattern": np.array(a.pattern(op["slm"]), copy=True)}
        if out.value is not None:
            v["eta"] = np.float64(out.value)
        if t != "hologram" and v["pattern"].dtype == bool:
            v["packed"] = np.frombuffer(a.slms[op["slm"]].pack_dmd_state(), dtype=np.uint8)
        return "ok", v
    if t == "prop":
        out = a.do(op)
        if out.kind != "ok":
            return out.kind if op.get("fault") else "error %s" % out.exc_type, str(out.exc)[:100]
        if "block" in op:
            sim = a.sims[op["sim"]]
            o2 = a.call({"op": "block"}, (lambda: sim.block_zeroth_order()) if op["block"] is None else (lambda: sim.block_zeroth_order(r=op["block"])))
            if o2.kind != "ok":
                return "error %s" % o2.exc_type, str(o2.exc)[:100]
        return "ok", a.snap_sim(op["sim"])
    if t == "setp":
        a.do(op)
        return "ok", None
    if t in ("edit_arr", "recreate_arr"):
        if t == "edit_arr":
            a.edit_arr(op["id"], op["new"])
        else:
            s = dict(a.aspec[op["id"]], **op["new"])
            del a.arrs[op["id"]]
            a.new_arr(op["id"], s)
        return "ok", None
    if t == "neg":
        k = op["slm"]
        if a.geo[k].spec["kind"] == "dmd":
            a.neg[k] = not a.neg[k]
            a.slms[k].negative_order = a.neg[k]
        return "ok", None
    if t == "fft":
        a.do(op)
        a.fft_now = op["to"]
        return "ok", None
    if t == "recreate":
        return recreate(a, op)
    if t == "sample":
        p = a.arg(op["arg"], op["slm"], op["plane"])
        out = a.call(op, lambda: a.slms[op["slm"]].profile_to_tensor(p, at_fourier_plane=op["plane"] == "f", complex=op["cplx"]))
        return ("ok", np.array(out.value)) if out.kind == "ok" else ("error %s" % out.exc_type, str(out.exc)[:100])
    if t == "analysis":
        data = op.get("data")
        arr = data if data is not None else a.arrs[op["arr"]]
        if op["trivial"]:
            out = a.call(op, lambda: a.lib.remove_trivial_phase(arr, op["radius"], remove_defocus=op["defocus"]))
        else:
            out = a.call(op, lambda: a.lib.zernike_decomposition(arr, op["radius"], op["num"], reconstruct=op["rec"], extrapolate=op["extra"]))
        if out.kind != "ok":
            return "error %s" % out.exc_type, str(out.exc)[:100]
        v = out.value
        if isinstance(v, tuple):
            return "ok", {"coefficients": np.array(v[0], dtype=float), "reconstruction": np.array(v[1])}
        return "ok", np.array(v, dtype=float)
    if t == "grids":
        s, m = a.slms[op["slm"]], a.sims[op["sim"]]
        v = {}
        for name, g in (("image", s.image_plane_grid), ("fourier", s.fourier_plane_grid), ("padded image", m.image_plane_padded_grid), ("padded fourier", m.fourier_plane_padded_grid)):
            v[name + " x"], v[name + " y"] = np.array(g[0]), np.array(g[1])
        if a.geo[op["slm"]].spec["kind"] == "dmd":
            v["origin"] = np.array([float(q) for q in s.first_order_origin])
        v["areas"] = np.array([m.fourier_plane_pixel_area, m.image_plane_pixel_area])
        return "ok", v
    raise AssertionError(t)


def recreate(a, op):
    """Objects are dropped and made anew (their addresses may be reused)."""
    if op.get("many"):
        for j in range(140):
            s = a.lib.LCOS_SLM(500e-9, 0.1, 8 + j % 3, 8, (5 + j) * 1e-6)
            s.image_plane_grid
    if op["what"] == "sim":
        i = op["i"]
        s = a.simspec[i]
        a.sims.pop(i)
        gc.collect(0)
        a.new_sim(i, s)
    else:
        k = op["slm"]
        s = dict(a.plan["slms"][k])
        if s["kind"] == "dmd":
            s["neg"] = a.neg[k]
        held = {i: a.simspec[i] for i in a.sims if a.simspec[i]["slm"] == k}
        for i in held:
            a.sims.pop(i)
        a.slms.pop(k)
        gc.collect(0)
        a.new_slm(k, s)
        for i, q in held.items():
            a.new_sim(i, q)
    return "ok", None


def digest(v):
    if v is None or isinstance(v, str):
        return v
    if isinstance(v, dict):
        return [(k, lab.summary(x)) for k, x in sorted(v.items())]
    return lab.summary(v)


def compare(u, v, bits, op):
    """None, or why the two results differ."""
    if isinstance(u, str) or u is None:
        return None
    if isinstance(u, dict):
        for k in u:
            if (u[k] is None) != (v.get(k) is None):
                return "%s is only present in one of them" % k
            if u[k] is not None:
                why = compare(np.asarray(u[k]), np.asarray(v[k]), bits, dict(op, field=k))
                if why:
                    return "%s: %s" % (k, why)
        return None
    if u.shape != v.shape or u.dtype != v.dtype:
        return "%s%s against %s%s" % (u.dtype, u.shape, v.dtype, v.shape)
    if u.dtype == bool or u.dtype == np.uint8:
        d = int((u != v).sum())
        return "%d of %d values differ" % (d, u.size) if d > max(2, 0.005 * u.size) else None
    if op["op"] == "hologram":
        d = np.abs(np.exp(1j * u.astype(float)) - np.exp(1j * v.astype(float)))
        bad = int((d > 1e-2).sum())
        return "%d of %d phases differ" % (bad, u.size) if bad > max(2, 0.02 * u.size) else None
    tol = 1e-4 if bits == 32 else 1e-9
    scale = max(float(np.abs(v).max()) if v.size else 0.0, 1e-300)
    d = np.abs(u.astype(complex) - v.astype(complex))
    if not np.isfinite(u).all():
        return None if np.array_equal(np.isfinite(u), np.isfinite(v)) else "not finite"
    bad = d > tol * scale
    if op["op"] == "patch" or op.get("field") in ("image_plane_field", "image_plane_intensity"):
        return "%d of %d values differ (up to %.3g)" % (bad.sum(), u.size, d.max() / scale) if bad.sum() > 2 else None
    return "%d of %d values differ (up to %.3g relative)" % (bad.sum(), u.size, d.max() / scale) if bad.any() else None


PROPS = {"C14": C14}

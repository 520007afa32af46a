"""C19: nobody's array is changed behind their back: a ledger of everything passed and handed out, and a twin session without the caller's edits."""
import numpy as np

from . import ctl, gen, lab, p_history
from .core import Property, Result
from .p_threads import differs
from .p_update import describe
from .rng import nprand, rand


class Ledger:
    """Every array passed to or received from the library, with its content when it was last legitimately changed."""

    def __init__(self):
        self.rows = []

    def hold(self, what, x, n):
        if isinstance(x, np.ndarray):
            for row in self.rows:
                if row[1] is x:
                    return
            self.rows.append([what, x, x.copy(), n])
        elif isinstance(x, list):
            self.rows.append([what, x, repr(x), n])

    def changed(self):
        for what, x, old, n in self.rows:
            if isinstance(x, list):
                if repr(x) != old:
                    return what, n, "the list is different"
            elif not lab.same(x, old):
                return what, n, "%d of %d values" % ((x != old).sum(), x.size) if x.shape == old.shape else "its shape"
        return None

    def edit(self, pick, forbidden, seed):
        """The caller overwrites one of its arrays. Returns what it was."""
        rows = [q for q in self.rows if pick(q) and isinstance(q[1], np.ndarray) and q[1].flags.writeable and q[1].size and not any(np.shares_memory(q[1], f) for f in forbidden)]
        done = []
        for q in rows:
            x = q[1]
            r = nprand("edit", seed, len(done))
            try:
                if x.dtype == bool:
                    x[...] = ~x
                elif x.dtype.kind == "c":
                    x[...] = -3 * x + r.normal() + 2j
                else:
                    x[...] = (-3 * x + 7 * r.normal()).astype(x.dtype)
            except ValueError:
                continue
            done.append(q[0])
        for q in self.rows:                     # arrays may overlap
            if isinstance(q[1], np.ndarray):
                q[2] = q[1].copy()
        return done


class C19(Property):
    id = "C19"
    quick_runs = 170
    thorough_runs = 5000
    collect_every = 4
    rechecks = recheck_workers = 4
    technique = "deterministic simulation of sessions in which the caller keeps editing its own arrays; ledger of all arrays as invariant, twin session without the edits as oracle; simulated devices for the controllers"
    rule = ("A case is a seeded session of 12-40 operations (holograms, gratings, patches, assignments, propagations, blocks, grids, profile values, parameters, analyses; failing calls included) in which the "
            "caller overwrites arguments after the call and arrays it received earlier. After every operation every array ever passed or received must be as the caller left it, and every result must "
            "be bit-identical to that of a session without the overwriting. Every ninth case is a block of forty controller sessions on a simulated device with reused and overwritten image buffers. "
            "Non-trivial: at least eight edits (controller cases: at least one image shown after an edit).")
    real = ["pySLM2 (slm, simulation, profile, window, analysis, util.controller), twice", "TensorFlow kernels", "numpy FFT"]
    stub = ["random source (scripted)", "failures", "DMD devices (controller cases)"]
    assumptions = ["the caller does not edit the array that is a modulator's current pattern, except where that is the operation"]
    state_measure = "hash of (operation, kinds of arrays edited before it, fault)"
    level_note = "Seeded search; arrays the library keeps but never uses or hands out again are not looked at."

    # ---------------------------------------------------------------------------------------------------- generation
    def generate(self, seed, tier):
        r = rand("C19", seed)
        if r.random() < 0.11:
            return {"kind": "ctl", "ops": [ctl.generate(seed * 1000 + i, "C19", tier) for i in range(40)]}
        base = gen.slm_spec(r, sizes=[(24, 16), (16, 24), (20, 20), (21, 16)], mid=0.06, big=0.012)
        slms = [base] + ([dict(base, px=base["px"] * 1.3)] if r.random() < 0.3 else [])
        sims = [{"slm": i, "padx": r.choice([0, 0, 3]), "pady": r.choice([0, 0, 2])} for i in range(len(slms))]
        profs = [gen.leaf(r, base, "f", kinds=["sg", "hg"]), gen.leaf(r, base, "f", kinds=["zern"])]
        arrs = [{"slm": 0, "plane": "f", "spec": gen.beam(r, base), "cplx": True}, {"slm": 0, "plane": "i", "spec": gen.target(r, base), "cplx": True}, {"slm": 0, "noise": r.randrange(10 ** 6)}]
        methods = r.choice([["random"], ["ideal"], ["simple"], ["ifta"], ["random", "ideal"]])
        plan = {"kind": "session", "bits": r.choice([32, 64]), "fft": r.choice(["np", "tf"]), "slms": slms, "sims": sims, "profs": profs, "arrs": arrs}
        few = [self.random_op(r, plan, methods) for _ in range(r.randint(6, 12))]
        ops = []
        for _ in range(gen.cap(r.randint(12, 40), [base])):
            op = dict(r.choice(few)) if r.random() < 0.7 else self.cheap_op(r, plan)
            op["seed"] = r.randrange(10 ** 9)
            if r.random() < 0.1 and op["op"] in ("calc", "grating", "patch", "hologram", "prop"):
                op["fault"] = gen.call_fault(r, 22)
            op["edit"] = r.choice([None, "args", "args", "results", "all", "old"])
            ops.append(op)
        plan["ops"] = ops
        return plan

    def arg(self, r, spec, complex_):
        q = r.random()
        if q < 0.4:
            return {"as": "array", "spec": spec, "match": "c" if complex_ else "f"}
        if q < 0.55:
            return {"as": "array", "spec": spec, "layout": "F"}
        if q < 0.65:
            return {"as": "list", "spec": spec}
        return {"as": "array", "spec": spec}

    def random_op(self, r, plan, methods):
        k = r.randrange(len(plan["slms"]))
        s = plan["slms"][k]
        B = lambda: r.choice([self.arg(r, gen.beam(r, s), True)] * 3 + [{"as": "named", "id": 0}])
        T = lambda: r.choice([self.arg(r, gen.target(r, s), True)] * 3 + [{"as": "named", "id": 1}])
        q = r.random()
        if q < 0.5:
            if s["kind"] == "lcos":
                op = gen.hologram(r, k, s, how="array", nmax=3)
                op["input"] = B()
                op["target"] = self.arg(r, op["target"]["spec"], False)
                return op
            f = r.choice(["calc", "calc", "grating", "patch", "patch"])
            if f == "calc":
                op = gen.calc(r, k, s, methods, "array")
                op["input"], op["target"] = B(), T()
                if "spec" in op.get("window", {}):
                    op["window"] = self.arg(r, op["window"]["spec"], True)
                return op
            op = getattr(gen, f)(r, k, s, [m for m in methods if m != "ifta"] or ["random"], "array")
            for g in ("amp", "pin", "pout"):
                if op[g]["as"] == "array":
                    op[g] = self.arg(r, op[g]["spec"], False)
            return op
        if q < 0.75:
            op = {"op": "prop", "sim": k, "input": B()}
            if s["kind"] == "dmd" and r.random() < 0.3:
                op["block"] = None
            return op
        return self.cheap_op(r, plan)

    def cheap_op(self, r, plan):
        k = r.randrange(len(plan["slms"]))
        s = plan["slms"][k]
        q = r.random()
        if q < 0.25:
            return {"op": "assign", "slm": k}
        if q < 0.4:
            return {"op": "grids", "slm": k, "sim": r.randrange(len(plan["sims"]))}
        if q < 0.6:
            i = r.choice([0, 1])
            return {"op": "values", "prof": i, "slm": k}
        if q < 0.75:
            L, px = gen.extent(s, "f")
            i = r.choice([0, 1])
            par = "a" if i == 1 else r.choice(["x0", "a"])
            return {"op": "setp", "prof": i, "param": par, "value": round(r.uniform(0.2, 0.5), 3) * (1 if par == "a" else L), "form": r.choice(["array0", "array0", "float"])}
        if q < 0.85:
            return {"op": "analysis", "arr": 2, "slm": 0, "radius": r.choice([5, 6.5]), "num": 3, "extra": False, "trivial": r.random() < 0.5, "defocus": True, "rec": r.random() < 0.5}
        if q < 0.93:
            return {"op": "edit_current", "slm": k}
        return {"op": "derive", "prof": 0, "how": r.choice(["shift", "rotate", "rescale_x"]), "slm": k}

    def shrink(self, plan):
        if plan["kind"] == "ctl":
            for p in plan["ops"]:
                if len(plan["ops"]) > 1:
                    yield dict(plan, ops=[p])
            if len(plan["ops"]) == 1:
                inner = plan["ops"][0]
                for c in super().shrink(inner):
                    yield dict(plan, ops=[c])
            return
        yield from super().shrink(plan)

    def shrink_op(self, op):
        yield from super().shrink_op(op)
        for key in ("edit",):
            if op.get(key):
                yield {k: v for k, v in op.items() if k != key}

    # ----------------------------------------------------------------------------------------------------- execution
    def execute(self, plan):
        return self.controllers(plan) if plan["kind"] == "ctl" else self.numeric(plan)

    def controllers(self, plan):
        res = Result()
        shown = 0
        for p in plan["ops"]:
            run = ctl.CtlRun(p).execute()
            shown += run.checked
            for props, cls, msg in run.viol:
                if "C19" in props:
                    res.violate(cls, "%s controller: %s" % (p["family"], msg))
            if run.viol and not res.viol:
                calm = dict(p, ops=[{k: v for k, v in o.items() if k not in ("scribble", "buffer")} for o in p["ops"]])
                if not ctl.CtlRun(calm).execute().viol:
                    res.violate("edit_leaks", "%s controller: only because the caller reused or overwrote its image arrays after the call: %s" % (p["family"], run.viol[0][2]))
            for line in run.world.log:
                res.record(*line)
            for k, v in run.world.stats.items():
                if k.startswith("fault:"):
                    res.count(k, v)
            res.sim_us += run.world.now
            res.states |= run.states
            if res.viol:
                break
        res.nontrivial = shown > 0
        return res

    def numeric(self, plan):
        res = Result()
        edits = 0
        a = self.session(plan, res, True)
        b = self.session(plan, None, False)
        for n, op in enumerate(plan["ops"]):
            if n >= len(a.results):
                break
            (k1, v1), (k2, v2) = a.results[n], b.results[n]
            why = "it ends with '%s' instead of '%s'" % (k1, k2) if k1 != k2 else differs(v1, v2)
            if why:
                res.violate("edit_leaks", "operation %d %s differs from a session in which the caller did not overwrite its arrays (%s): %s" % (n, describe(op), a.edited[n], why))
                break
        for what, n, amount, during in a.broken:
            res.violate("argument_modified" if what.startswith("argument") else "earlier_result_changed", "%s of operation %d was changed by operation %d %s: %s" % (
                what, n, during, describe(plan["ops"][during]), amount))
        res.record([(k, p_history.digest(v)) for k, v in a.results])
        edits = sum(len(e) for e in a.edited)
        res.count("edits", edits)
        res.count("arrays_watched", len(a.ledger.rows))
        res.nontrivial = edits >= 8
        return res

    def session(self, plan, res, editing):
        a = lab.Lab(plan, result=res)
        a.neg = {i: bool(s.get("neg")) for i, s in enumerate(plan["slms"])}
        a.ledger, a.results, a.broken, a.edited = Ledger(), [], [], []
        for i, x in a.arrs.items():
            a.ledger.hold("argument (array %d)" % i, x, -1)
        recent = []
        for n, op in enumerate(plan["ops"]):
            a.last_args = []
            outcome, raw = self.step(a, op, n)
            a.results.append(outcome)
            for x in a.last_args:
                for y in (x.values() if isinstance(x, dict) else [x]):
                    a.ledger.hold("argument", y, n)
            for k in a.slms:
                a.ledger.hold("pattern", a.pattern(k), n)
            for what, x in raw:
                a.ledger.hold(what, x, n)
            bad = a.ledger.changed()
            if bad:
                a.broken.append(bad + (n,))
                break
            done = []
            if editing and op.get("edit"):
                current = [np.asarray(a.pattern(k)) for k in a.slms] + list(a.arrs.values())
                e = op["edit"]
                pick = {"args": lambda q: q[3] == n and q[0].startswith("argument"), "results": lambda q: q[3] == n and not q[0].startswith("argument"),
                        "all": lambda q: q[3] >= n - 2, "old": lambda q: q[3] < n}[e]
                done = a.ledger.edit(pick, current, op["seed"])
            a.edited.append(recent + done)
            recent = (recent + done)[-3:]
            if res is not None:
                res.state(op["op"], sorted(set(recent)), (op.get("fault") or {}).get("exc"))
        return a

    def step(self, a, op, n):
        """((kind, value), raw arrays handed out)."""
        t = op["op"]
        raw = []
        if t == "assign":
            out = a.do(op)
            return (out.kind, {"pattern": np.array(a.pattern(op["slm"]))}), raw
        if t == "edit_current":
            p = a.pattern(op["slm"])
            if not (isinstance(p, np.ndarray) and p.flags.writeable):
                return ("ok", None), raw
            m = nprand("cur", op["seed"]).random(p.shape) < 0.2
            if p.dtype == bool:
                p[m] = ~p[m]
            else:
                p[m] = 0.25
            for q in a.ledger.rows:
                if isinstance(q[1], np.ndarray):
                    q[2] = q[1].copy()
            v = {"pattern": np.array(a.pattern(op["slm"]))}
            return ("ok", v), raw
        if t == "values":
            x, y = (np.array(g, dtype=a.fdtype) for g in a.geo[op["slm"]].fourier_grid())
            x, y = lab.aligned(x), lab.aligned(y)
            a.last_args = [x, y]
            out = a.call(op, lambda: a.profs[op["prof"]](x, y))
            raw.append(("profile values", out.value))
            return (out.kind, lab.copy_of(out.value)), raw
        if t == "setp":
            v = a.param_value(op)
            if isinstance(v, np.ndarray):
                a.last_args = [v]
            p = a.profs[op["prof"]]
            out = a.call(op, lambda: setattr(p, op["param"], v))
            got = float(np.asarray(getattr(p, op["param"])))
            return (out.kind, np.float64(got)), raw
        if t == "derive":
            args = [np.array(0.3, dtype=a.fdtype), np.array(1e-5, dtype=a.fdtype)]
            a.last_args = args
            p = a.profs[op["prof"]]
            q = p.shift(args[1], args[1]) if op["how"] == "shift" else getattr(p, op["how"])(args[0])
            a.profs[90 + n] = q
            return ("ok", np.array(q(np.array([1e-5, 2e-5]), np.array([0.0, 1e-5])))), raw
        if t == "analysis":
            arr = a.arrs[op["arr"]]
            if op["trivial"]:
                out = a.call(op, lambda: a.lib.remove_trivial_phase(arr, op["radius"], remove_defocus=op["defocus"]))
                raw.append(("phase map", out.value))
                return (out.kind, lab.copy_of(out.value)), raw
            out = a.call(op, lambda: a.lib.zernike_decomposition(arr, op["radius"], op["num"], reconstruct=op["rec"], extrapolate=op["extra"]))
            v = out.value
            if isinstance(v, tuple):
                raw.append(("coefficients", v[0]))
                raw.append(("reconstruction", v[1]))
                return (out.kind, {"c": np.array(v[0], dtype=float), "r": np.array(v[1])}), raw
            raw.append(("coefficients", v))
            return (out.kind, np.array(v, dtype=float)), raw
        if t == "grids":
            s, m = a.slms[op["slm"]], a.sims[op["sim"]]
            for name, g in (("image grid", s.image_plane_grid), ("fourier grid", s.fourier_plane_grid), ("padded image grid", m.image_plane_padded_grid),
                            ("padded fourier grid", m.fourier_plane_padded_grid)):
                raw += [(name, g[0]), (name, g[1])]
            return ("ok", {str(i): np.array(x) for i, (w, x) in enumerate(raw)}), raw
        if t == "prop":
            out = a.do(op)
            sim = a.sims[op["sim"]]
            if out.kind == "ok" and "block" in op:
                sim.block_zeroth_order()
            if sim.image_plane_field is not None:
                for name in ("input_field", "output_field", "image_plane_field", "input_intensity", "output_intensity", "image_plane_intensity"):
                    raw.append((name, getattr(sim, name)))
            return (out.kind, a.snap_sim(op["sim"])), raw
        out = a.do(op)
        p = a.pattern(op["slm"])
        v = {"pattern": np.array(p)}
        if out.kind == "ok" and out.value is not None:
            v["eta"] = np.float64(out.value)
        if p.dtype == bool and a.geo[op["slm"]].spec["kind"] == "dmd":
            packed = a.slms[op["slm"]].pack_dmd_state()
            v["packed"] = np.frombuffer(packed, dtype=np.uint8)
        # what the simulations say must not depend on patterns set later
        for i in a.sims:
            v.update({"sim %d %s" % (i, q): x for q, x in a.snap_sim(i).items()})
        return (out.kind, v), raw


PROPS = {"C19": C19}

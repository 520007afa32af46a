"""C13: profile trees whose parameters change while they are evaluated, combined and used."""
import numpy as np

from . import gen, lab, model
from .core import Property, Result
from .rng import nprand, rand

SETTABLE = {"hg": ("x0", "y0", "a", "w"), "sg": ("x0", "y0", "a", "w", "p"), "zern": ("a",), "const": ("c",), "rectwin": ("x0", "y0", "wx", "wy"), "circwin": ("x0", "y0", "r")}


def is_complex(s, specs):
    if not isinstance(s, dict):
        return isinstance(s, (list, tuple))
    if s["t"] == "ref":
        return is_complex(specs[s["id"]], specs)
    if s["t"] in ("lg", "cplx"):
        return True
    if s["t"] == "const":
        return isinstance(s["c"], (list, tuple))
    return any(is_complex(v, specs) for k, v in s.items() if k in ("a", "b") and isinstance(v, (dict, list)))


def depth(s, specs):
    if not isinstance(s, dict):
        return 0
    if s["t"] == "ref":
        return depth(specs[s["id"]], specs)
    d = [depth(v, specs) for k, v in s.items() if k in ("a", "b") and isinstance(v, dict)]
    return 1 + max(d) if d else 0


def combine(r, specs, s):
    """A new profile built from existing ones."""
    ref = lambda: {"t": "ref", "id": r.randrange(len(specs))}
    number = lambda: r.choice([{"t": "int", "v": r.choice([0, 1, 2, 3, -1])}, r.choice([0.0, 1.0, -1.0, 1e-3, [0.0, 1.0], [1.0, 0.0]]), round(r.uniform(-2, 2), 3), [round(r.uniform(-1, 1), 3), round(r.uniform(-1, 1), 3)]])
    t = r.choice(["add", "add", "sub", "mul", "mul", "radd", "rmul", "div", "pow", "neg", "rotate", "shift", "rescale_x", "rescale_y", "cplx"])
    L, px = gen.extent(s, "f")
    a = ref()
    made = [i for i, q in enumerate(specs) if isinstance(q.get("a"), dict)]
    if made and r.random() < 0.4:              # the same operation again, on the same profile or on its result
        i = r.choice(made[-4:])
        t = specs[i]["t"]
        a = dict(specs[i]["a"]) if specs[i]["a"].get("t") == "ref" and r.random() < 0.5 else {"t": "ref", "id": i}
    plain = [i for i, q in enumerate(specs) if q["t"] == "const"]
    if depth(a, specs) > 4:
        a = {"t": "ref", "id": 0}
    if t in ("add", "sub", "mul"):
        b = ref() if r.random() < 0.7 else number()
        if plain and r.random() < 0.3:
            b = {"t": "ref", "id": r.choice(plain)}
            if r.random() < 0.2:
                a, b = b, a
        if isinstance(b, dict) and b["t"] == "ref" and depth(b, specs) > 4:
            b = {"t": "ref", "id": 0}
        return {"t": t, "a": a, "b": b}
    if t in ("radd", "rmul"):
        return {"t": t, "a": a, "b": number()}
    if t == "div":
        b = {"t": "const", "c": r.choice([2.0, -0.5, [0.6, 0.8]])} if r.random() < 0.5 else r.choice([2.0, {"t": "int", "v": 4}])
        return {"t": "div", "a": a, "b": b}
    if t == "pow":
        return {"t": "pow", "a": a, "b": r.choice([{"t": "int", "v": 2}, {"t": "int", "v": 3}, 2.0])}
    if t == "rotate":
        return {"t": t, "a": a, "theta": r.choice([0.0, np.pi / 2, np.pi, -np.pi / 2, 2 * np.pi, 7.0] + [round(r.uniform(-3, 3), 3)] * 6)}
    if t == "shift":
        zero = r.choice(["", "", "", "x", "y", "xy"])
        return {"t": t, "a": a, "dx": 0.0 if "x" in zero else round(r.uniform(-0.3, 0.3), 3) * L, "dy": 0.0 if "y" in zero else round(r.uniform(-0.3, 0.3), 3) * L}
    if t in ("rescale_x", "rescale_y"):
        return {"t": t, "a": a, "m": r.choice([0.5, 2.0, 1.3, -1.0, 1.0, 10.0])}
    if t == "cplx" and is_complex(a, specs):
        return {"t": "neg", "a": a}
    return {"t": t, "a": a}


class C13(Property):
    id = "C13"
    quick_runs = 200
    thorough_runs = 4000
    collect_every = 4
    rechecks = recheck_workers = 4
    technique = "deterministic simulation of sessions that change, combine, evaluate and use profiles with injected failures; executable reference semantics as oracle"
    rule = ("A case is a seeded session of 25-70 operations on 3-6 leaf profiles and up to 12 combinations or transformations of them (shared sub-profiles, nesting up "
            "to 5): parameter changes in several forms, refused parameter values, interrupts, evaluation on grids, points, lists, broadcast axes, sampling at the origin, far away and by modulators "
            "of different geometry in both planes, use in holograms and propagations. Non-trivial: at least ten evaluations of combinations after a parameter change.")
    real = ["pySLM2.profile, pySLM2.window", "pySLM2.slm (profile_to_tensor, holograms)", "pySLM2.simulation", "TensorFlow kernels"]
    stub = ["random source (scripted)", "failures"]
    assumptions = ["values are compared to float rounding, scaled by the intermediate values and by the slope of the profile"]
    state_measure = "hash of (operation, profile type, nesting depth, parameter, how evaluated, fault)"
    level_note = ("Seeded search over trees x histories; every evaluation is compared with an independent float64 interpretation of the tree at its current parameters. "
                  "Formulas of the leaves are thereby checked too, but only at the sampled parameters.")

    def generate(self, seed, tier):
        r = rand("C13", seed)
        slms = [gen.slm_spec(r, "dmd", sizes=[(16, 12), (12, 16), (10, 10), (13, 9)]) for _ in range(r.choice([1, 2]))]
        s = slms[0]
        specs = []
        for _ in range(r.randint(3, 6)):
            l = gen.leaf(r, s, "f")
            q = r.random()
            if q < 0.2:                       # values an implementation might treat specially
                l = {"t": "const", "c": r.choice([0.0, 1.0, 1.0, -1.0, [0.0, 0.0], [1.0, 0.0], [0.0, 1.0]])}
            elif q < 0.3 and "a" in l and l["t"] in ("hg", "sg", "zern"):
                l["a"] = r.choice([0.0, 1.0])
            specs.append(l)
        plan = {"bits": r.choice([32, 64]), "slms": slms, "sims": [{"slm": 0}], "profs": [dict(q) for q in specs]}
        leaves = list(range(len(specs)))
        ops = []
        combos = []
        for _ in range(r.randint(25, 70)):
            q = r.random()
            if q < 0.16 and len(combos) < 12:
                c = combine(r, specs, s)
                combos.append(len(specs))
                specs.append(c)
                ops.append({"op": "new", "spec": c})
            elif q < 0.42:
                i = r.choice(leaves)
                t = specs[i]["t"]
                if t not in SETTABLE:
                    continue
                par = r.choice(SETTABLE[t])
                L, px = gen.extent(s, "f")
                v = {"x0": round(r.uniform(-0.4, 0.4), 3) * L, "y0": round(r.uniform(-0.4, 0.4), 3) * L, "a": round(r.uniform(-2, 2), 3), "w": round(r.uniform(0.3, 0.9), 3) * L,
                     "p": r.choice([1.0, 2.0, 3.0, 1.5]), "c": round(r.uniform(-2, 2), 3), "wx": gen.EDGE * L, "wy": 0.7 * gen.EDGE * L, "r": round(r.uniform(0.3, 1.0), 3) * gen.EDGE * L}[par]
                if par in ("a", "c") and r.random() < 0.3:
                    v = r.choice([0.0, 1.0, -1.0])
                others = [q[par] for q in specs if par in q and not isinstance(q[par], (list, dict))]
                if r.random() < 0.15 and others:
                    v = r.choice(others)
                if par == "c" and isinstance(specs[i]["c"], list):
                    v = [v, round(r.uniform(-1, 1), 3)]
                op = {"op": "setp", "prof": i, "param": par, "value": v, "form": r.choice(["float", "float", "numpy", "array0", "tensor"])}
                f = r.random()
                if f < 0.12:
                    op["value"] = r.choice(["bad", "badshape", "none"])
                elif f < 0.25:
                    op["fault"] = gen.call_fault(r, 3)
                ops.append(op)
            elif q < 0.88:
                i = r.choice(combos) if combos and r.random() < 0.7 else r.choice(leaves)
                op = {"op": "eval", "prof": i, "how": r.choice(["grid", "grid", "grid", "points", "list", "broadcast", "scalar", "origin", "far", "cube", r.choice(["one", "large"]), "slm_f", "slm_f", "slm_i"]),
                      "slm": r.randrange(len(slms)), "seed": r.randrange(10 ** 6)}
                if r.random() < 0.12:
                    op["fault"] = gen.call_fault(r, 6)
                ops.append(op)
            else:
                i = r.choice(combos) if combos and r.random() < 0.7 else r.choice(leaves)
                ops.append({"op": r.choice(["use_prop", "use_calc", "use_amp"]), "prof": i, "slm": 0, "seed": r.randrange(10 ** 6)})
        plan["ops"] = ops
        return plan

    def shrink(self, plan):
        # dropping a "new" would renumber the profiles, so only the others are dropped
        ops = plan["ops"]
        keep = [i for i, o in enumerate(ops) if o["op"] != "new"]
        size = max(1, len(keep) // 2)
        while size >= 1:
            for j in range(0, len(keep), size):
                drop = set(keep[j:j + size])
                yield dict(plan, ops=[o for i, o in enumerate(ops) if i not in drop])
            size //= 2
        news = [i for i, o in enumerate(ops) if o["op"] == "new"]
        n = len(plan["profs"]) + len(news)
        for i in reversed(news):
            last = len(plan["profs"]) + news.index(i)
            used = any(o.get("prof") == last or refers(o.get("spec"), last) for o in ops)
            if not used and last == n - 1:
                yield dict(plan, ops=ops[:i] + ops[i + 1:])
        for i, o in enumerate(ops):
            if o.get("fault"):
                yield dict(plan, ops=ops[:i] + [{k: v for k, v in o.items() if k != "fault"}] + ops[i + 1:])

    def execute(self, plan):
        res = Result()
        a = lab.Lab(plan, result=res)
        self.changed = False
        judged = 0
        for n, op in enumerate(plan["ops"]):
            t = op["op"]
            if "prof" in op and op["prof"] not in a.profs:
                continue
            where = "op %d %s" % (n, t)
            if t == "new":
                i = len(a.profs)
                try:
                    a.new_prof(i, op["spec"])
                except Exception as e:
                    res.violate("combine", "%s: building %s raised %s: %s" % (where, op["spec"]["t"], type(e).__name__, str(e)[:200]))
                    break
                self.leaves(a, res, where)
                res.state("new", op["spec"]["t"], depth(op["spec"], a.pspec))
            elif t == "setp":
                self.set(a, op, res, where)
                self.changed = True
            elif t == "eval":
                if op.get("fault"):
                    self.evaluate(a, op, None, where, fault=True)
                self.evaluate(a, op, res, where)
                judged += self.changed and op["prof"] >= len(plan["profs"])
                res.state("eval", a.pspec[op["prof"]]["t"], depth(a.pspec[op["prof"]], a.pspec), op["how"], bool(op.get("fault")), plan["bits"])
            else:
                self.use(a, op, where)
                self.evaluate(a, {"op": "eval", "prof": op["prof"], "how": "grid", "slm": 0, "seed": op["seed"]}, res, where)
            if res.viol:
                break
        self.leaves(a, res, "at the end")
        if not res.viol:
            for i in a.profs:
                self.evaluate(a, {"op": "eval", "prof": i, "how": "grid", "slm": 0, "seed": 1}, res, "at the end")
        res.count("evaluations_of_combinations", judged)
        res.nontrivial = judged >= 10
        return res

    def leaves(self, a, res, where):
        """Every leaf answers its current parameters."""
        for i, s in a.pspec.items():
            for par in SETTABLE.get(s["t"], ()):
                v = np.asarray(getattr(a.profs[i], par))
                want = model.number(s[par])
                if v.shape != () or abs(complex(v) - want) > 1e-6 * max(1e-300, abs(want)):
                    res.violate("parameter", "%s: %s of profile %d (%s) is %s instead of %s" % (where, par, i, s["t"], v, want))
            if s["t"] == "zern" and (a.profs[i].n, a.profs[i].m) != (s["n"], s["m"]):
                res.violate("parameter", "%s: indices of profile %d" % (where, i))

    def set(self, a, op, res, where):
        bad = op["value"] in ("bad", "badshape", "none")
        before = np.asarray(getattr(a.profs[op["prof"]], op["param"]))
        out = a.do(dict(op, badarg=bad) if bad else op)
        now = np.asarray(getattr(a.profs[op["prof"]], op["param"]))
        s = a.pspec[op["prof"]]
        if out.kind == "ok":
            if bad:
                res.violate("accepted", "%s: setting %s of %s to an invalid value is accepted" % (where, op["param"], s["t"]))
            return self.leaves(a, res, where)
        if out.fired is None:
            res.violate("raises", "%s: setting %s of %s raised %s" % (where, op["param"], s["t"], out.exc_type))
        want = model.number(op["value"]) if not bad else None
        if now.tobytes() != before.tobytes():
            if not bad and abs(complex(now) - want) <= 1e-6 * max(1e-300, abs(want)):
                a.pspec[op["prof"]] = dict(s, **{op["param"]: op["value"]})
            else:
                res.violate("failed_set", "%s: a failed setting of %s changed it from %s to %s" % (where, op["param"], before, now))
        self.leaves(a, res, where)

    def points(self, a, op):
        s = a.geo[op["slm"]].spec
        L, px = gen.extent(s, "f")
        r = nprand("points", op["seed"])
        how = op["how"]
        if how == "grid":
            return np.meshgrid(np.linspace(-L, L, 11) + 0.01 * L, np.linspace(-0.9 * L, L, 8))
        if how == "points":
            return [r.uniform(-L, L, 7), r.uniform(-L, L, 7)]
        if how == "list":
            return [list(r.uniform(-L, L, 5)), list(r.uniform(-L, L, 5))]
        if how == "broadcast":
            return [r.uniform(-L, L, (1, 6)), r.uniform(-L, L, (4, 1))]
        if how == "origin":
            return [np.zeros(3), np.array([0.0, 0.1 * L, 0.0])]
        if how == "far":
            return [r.uniform(-4 * L, 4 * L, 9), r.uniform(-4 * L, 4 * L, 9)]
        if how == "cube":
            return [r.uniform(-L, L, (2, 3, 4)), r.uniform(-L, L, (2, 3, 4))]
        if how == "one":
            return [r.uniform(-L, L, 1), r.uniform(-L, L, 1)]
        if how == "large":
            return np.meshgrid(np.linspace(-L, L, 601) + 0.01 * L, np.linspace(-0.9 * L, L, 503))
        return [float(r.uniform(-L, L)), float(r.uniform(-L, L))]

    def evaluate(self, a, op, res, where, fault=False):
        i, how = op["prof"], op["how"]
        p, spec = a.profs[i], a.pspec[i]
        if how in ("slm_f", "slm_i"):
            x, y = a.grid(op["slm"], "f" if how == "slm_f" else "i")
            cplx = bool(is_complex(spec, a.pspec)) or op["seed"] % 2 == 0
            fn = lambda: np.asarray(a.slms[op["slm"]].profile_to_tensor(p, at_fourier_plane=how == "slm_f", complex=cplx))
        else:
            x, y = self.points(a, op)
            fn = lambda: p(x, y)
        out = a.call({"op": "eval", "fault": op.get("fault")} if fault else {"op": "eval"}, fn)
        if fault or res is None:
            return
        if out.kind != "ok":
            res.violate("raises", "%s: evaluating profile %d (%s, %s) raised %s: %s" % (where, i, spec["t"], how, out.exc_type, str(out.exc)[:200]))
            return
        got = np.asarray(out.value)
        x, y = np.broadcast_arrays(np.asarray(x, dtype=float), np.asarray(y, dtype=float))
        with np.errstate(all="ignore"):
            want = np.asarray(model.evaluate(spec, x, y, a.params))
            mag = model.magnitude(spec, x, y, a.params)
            d = 16 * a.eps * max(1e-300, float(max(np.abs(x).max(), np.abs(y).max())))
            spread = 0.0
            for dx, dy in ((d, d), (d, -d), (-d, d), (-d, -d)):
                spread = np.maximum(spread, np.abs(model.evaluate(spec, x + dx, y + dy, a.params) - want))
        if got.shape != want.shape:
            res.violate("shape", "%s: profile %d (%s) evaluated on %s gives shape %s" % (where, i, spec["t"], how, got.shape))
            return
        if not np.isfinite(want).all() or not np.isfinite(mag) or mag > 1e12:
            return
        tol = 400 * a.eps * mag + 4 * spread + 1e-30            # the last for underflow
        bad = ~(np.abs(got - want) <= tol)
        if bad.any():
            j = tuple(np.argwhere(bad)[0])
            res.violate("wrong_value", "%s: profile %d = %s evaluated (%s) gives %s instead of %s at %d of %d points" % (
                where, i, short(spec), how, got[j], want[j], int(bad.sum()), bad.size))
        res.record(i, how, lab.summary(got))
        res.count("evaluations")

    def use(self, a, op, where):
        i = op["prof"]
        p = a.profs[i]
        if op["op"] == "use_prop":
            a.call({"op": "use"}, lambda: a.sims[0].propagate_to_image(p))
        elif op["op"] == "use_calc":
            a.call({"op": "use", "seed": op["seed"]}, lambda: a.slms[0].calculate_dmd_state(1.0, p, method="simple"))
        else:
            a.call({"op": "use", "seed": op["seed"]}, lambda: a.slms[0].set_dmd_grating_state(amp=p, method="ideal"))


def refers(s, i):
    if not isinstance(s, dict):
        return False
    return (s.get("t") == "ref" and s.get("id") == i) or any(refers(v, i) for v in s.values())


def short(s):
    if not isinstance(s, dict):
        return str(s)
    if s["t"] == "ref":
        return "#%d" % s["id"]
    if "a" in s and isinstance(s["a"], dict):
        return "%s(%s%s)" % (s["t"], short(s["a"]), ", " + short(s["b"]) if "b" in s else "")
    return s["t"]


PROPS = {"C13": C13}

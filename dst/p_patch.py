"""C09: sequences of whole-pattern settings and circular patches."""
import numpy as np

from . import gen, lab
from .core import Property, Result
from .p_update import apply_bad, bad_variant, describe
from .rng import nprand, rand

METHODS = [["random"], ["random", "ideal"], ["simple", "ideal"], ["random", "simple"], ["random", "ideal", "simple"], ["random", "ifta"]]


class C09(Property):
    id = "C09"
    quick_runs = 150
    thorough_runs = 9000
    collect_every = 5
    rechecks = recheck_workers = 4
    technique = "deterministic simulation of patch sequences with scripted random draws and injected failures; pixel-ownership model as oracle"
    rule = ("A case is a seeded session of 20-70 operations on one or two DMDs: whole patterns (grating, hologram, on, off, assigned boolean / gray / 8-bit arrays), "
            "in-place edits by the user, circular patches anywhere (also off the chip, tiny, huge, half-pixel centres, numbers of any type), about a quarter with an interrupt, allocation "
            "failure or invalid argument. Non-trivial: at least five patches covered at least one pixel.")
    real = ["pySLM2.slm (circular_patch, set_dmd_grating_state, calculate_dmd_state, on/off)", "pySLM2._lib", "TensorFlow kernels"]
    stub = ["random source (scripted)", "failures"]
    assumptions = ["the disc is the set of pixels closer to the centre than half the diameter, to within float32 rounding when the centre is not a multiple of half a pixel"]
    state_measure = "hash of (operation, method, fault, number of covered pixels bucket, gray or boolean before and after)"
    level_note = ("Seeded search over sequences and fault places. Values inside a disc come from a second DMD with the same settings that draws the same grating as a whole "
                  "pattern with the same random numbers, ownership of pixels from a small numpy model; comparison is exact.")

    def generate(self, seed, tier):
        r = rand("C09", seed)
        slms = [gen.slm_spec(r, "dmd", mid=0.08, big=0.03) for _ in range(r.choice([1, 1, 2]))]
        ghosts = [dict(s) for s in slms]
        plan = {"bits": r.choice([32, 32, 32, 64]), "slms": slms + ghosts}
        methods = r.choice(METHODS)
        ops = []
        places = {}
        for _ in range(gen.cap(r.randint(20, 70), slms)):
            k = r.randrange(len(slms))
            s = slms[k]
            how = r.choice(["array", "array", "array", "tensor", "profile"])
            q = r.random()
            if q < 0.62:
                op = gen.patch(r, k, s, methods, how)
                op["draw"] = r.choice([0.5, 0.5, 0.2, 0.8, "random", "random", "zeros"])
                if r.random() < 0.5:
                    op["i"], op["j"], op["d"] = r.randint(-2, s["Ny"] + 1), r.randint(-2, s["Nx"] + 1), r.choice([1, 2, 3, 5, 6, 10, 13])
                elif r.random() < 0.3:
                    op["i"], op["j"], op["d"] = r.randint(0, 2 * s["Ny"]) / 2, r.randint(0, 2 * s["Nx"]) / 2, r.randint(0, 24) / 2
                if places.get(k) and r.random() < 0.35:      # at or close to an earlier place
                    op["i"], op["j"], op["d"] = r.choice(places[k][-6:])
                    how_far = r.choice(["same", "i", "j", "d", "swap", "fraction"])
                    if how_far == "swap":
                        op["i"], op["j"] = op["j"], op["i"]
                    elif how_far == "fraction":
                        op["i"], op["j"] = op["i"] + r.choice([-0.5, 0.25, 0.5]), op["j"] + r.choice([-0.25, 0.5, 0])
                    elif how_far != "same":
                        op[how_far] = max(op[how_far] + r.choice([-2, -1, -0.5, 0.5, 1, 2, 0.125]), 0.5 if how_far == "d" else -9)
                places.setdefault(k, []).append((op["i"], op["j"], op["d"]))
                if r.random() < 0.25:
                    op["coord"] = r.choice(["numpy", "numpy", "numpy32", "double", "array0", "tensor"])
                f = r.random()
                if f < 0.16:
                    op["fault"] = gen.call_fault(r, r.choice([8, 20]))
                elif f < 0.28:
                    op["bad"] = bad_variant(r, op)
                elif f < 0.31 and op["method"] == "random":
                    op["fault"] = gen.rng_fault(r)
            elif q < 0.72:
                op = gen.grating(r, k, s, methods, how)
            elif q < 0.80:
                op = gen.calc(r, k, s, methods, how)
                op.pop("window", None)
            elif q < 0.88:
                op = {"op": r.choice(["on", "off"]), "slm": k}
            elif q < 0.94:
                op = {"op": "assign", "slm": k, "seed": r.randrange(10 ** 9), "gray": r.random() < 0.4, "u8": r.random() < 0.2}
            else:
                op = {"op": "edit", "slm": k, "seed": r.randrange(10 ** 9)}
            ops.append(op)
        plan["ops"] = ops
        return plan

    def shrink_op(self, op):
        if op.get("coord"):
            yield {k: v for k, v in op.items() if k != "coord"}
        if op.get("fault") or op.get("bad"):
            yield {k: v for k, v in op.items() if k not in ("fault", "bad")}
        for f in ("amp", "pin", "pout"):
            if f in op and op[f].get("as") != "number":
                yield dict(op, **{f: {"as": "number", "v": 1 if f == "amp" else 0}})

    def execute(self, plan):
        res = Result()
        a = lab.Lab(plan, result=res)
        m = len(plan["slms"]) // 2
        want = [np.array(a.pattern(k)) for k in range(m)]
        covered = 0
        for n, op in enumerate(plan["ops"]):
            k, t = op["slm"], op["op"]
            where = "after op %d %s" % (n, describe(op))
            old = want[k]
            gray_before = old.dtype.kind == "f"
            held = a.pattern(k)
            unsure = None
            if t == "edit":
                r = nprand("edit", op["seed"])
                i0, j0 = r.integers(0, old.shape[0]), r.integers(0, old.shape[1])
                val = bool(r.integers(0, 2))
                try:
                    a.slms[k].dmd_state[i0:i0 + 3, j0:j0 + 4] = val
                    want[k][i0:i0 + 3, j0:j0 + 4] = val
                except ValueError:
                    res.count("pattern_not_editable")
                out = None
            elif t == "patch":
                clean = {x: y for x, y in op.items() if x not in ("fault", "bad")}
                got = self.patched(a, m, k, clean, old)
                if got is None:
                    res.violate("raises", "%s: the same grating as a whole pattern raises" % where)
                    break
                expected, mask, unsure, exact = got
                v = apply_bad(op, op["bad"]) if op.get("bad") else op
                out = a.do(v)
                if out.kind == "ok":
                    if op.get("bad"):
                        res.count("invalid_argument_accepted")
                        break
                    if op["method"] == "random" and (out.draws == 0 or out.shapes != self.ghost_shapes) and not isinstance(op.get("draw"), float):
                        exact = False
                    want[k] = expected
                    if not exact:                       # cannot compare the inside: adopt it, but the rest must hold
                        now = np.array(a.pattern(k))
                        if now.shape == expected.shape:
                            want[k] = np.where(mask, now, expected).astype(expected.dtype)
                    covered += bool(mask.any())
                else:
                    now = a.pattern(k)
                    if not lab.same(held, old):
                        res.violate("edited_in_place", "%s: the patch failed and changed the pattern held before" % where)
                    elif not lab.same(now, old):
                        if out.fired and out.fired[0] == "call" and self.equal(now, expected, unsure, old):
                            want[k] = np.array(now)
                        else:
                            res.violate("failed_patch", "%s: the patch failed with %s but changed the pattern" % (where, out.exc_type))
                    if out.fired is None:
                        res.violate("raises", "%s: raised %s without a fault: %s" % (where, out.exc_type, str(out.exc)[:200]))
            else:
                out = a.do(op)
                if out.kind != "ok":
                    res.violate("raises", "%s: raised %s without a fault: %s" % (where, out.exc_type, str(out.exc)[:200]))
                now = np.array(a.pattern(k))
                if t in ("on", "off"):
                    want[k] = np.full(old.shape, t == "on")
                elif t == "assign":
                    want[k] = np.array(a.assigned(op))
                else:
                    g = a.do(dict(op, slm=k + m))
                    want[k] = np.array(a.pattern(k + m)) if out.draws == g.draws and (out.draws or op["method"] != "random") else now
            if res.viol:
                break
            for j in range(m):
                now = np.asarray(a.pattern(j))
                if not self.equal(now, want[j], unsure if j == k else None, old):
                    res.violate("wrong_pixels", "%s: %s of modulator %d" % (where, self.diff(now, want[j]), j))
                    break
                if want[j].dtype == bool and now.dtype != bool:
                    res.violate("not_boolean", "%s: a pattern made of boolean parts only has type %s" % (where, now.dtype))
                want[j] = np.array(now)
            f = op.get("fault") or ({"kind": "argument", "at": op["bad"][0]} if op.get("bad") else {})
            res.state(t, op.get("method"), f.get("kind"), f.get("at"), min(6, int(np.log2(1 + covered))) if t == "patch" else None, gray_before, want[k].dtype.kind)
            res.record(n, [lab.summary(w) for w in want])
            if res.viol:
                break
        res.nontrivial = covered >= 5
        res.count("patches_covering", covered)
        return res

    def patched(self, a, m, k, op, old):
        """What the pattern must be after this patch, from the same grating drawn as a whole pattern on the ghost DMD."""
        whole = {x: y for x, y in op.items() if x not in ("i", "j", "d")}
        g = a.do(dict(whole, op="grating", slm=k + m))
        if g.kind != "ok":
            return None
        self.ghost_shapes = g.shapes
        full = np.array(a.pattern(k + m))
        i, j, d = float(op["i"]), float(op["j"]), float(op["d"])
        ii, jj = np.meshgrid(np.arange(old.shape[0]), np.arange(old.shape[1]), indexing="ij")
        rr = (ii - i) ** 2 + (jj - j) ** 2
        mask = rr < (d / 2) ** 2
        if all(float(2 * v).is_integer() for v in (i, j, d)):
            unsure = np.zeros(mask.shape, dtype=bool)
        else:
            unsure = np.abs(rr - (d / 2) ** 2) < 1e-4 * max(1.0, d)
        if old.dtype == bool and full.dtype == bool:
            out = np.where(mask, full, old)
        else:
            out = np.where(mask, full.astype(float), old.astype(float))
        self.full = full
        return out, mask, unsure, g.draws > 0 or op["method"] != "random"

    def equal(self, now, want, unsure, old):
        now = np.asarray(now)
        if now.shape != want.shape:
            return False
        ok = now.astype(float) == want.astype(float)
        if unsure is not None and unsure.any():
            ok |= unsure & ((now.astype(float) == old.astype(float)) | (now.astype(float) == self.full.astype(float)))
        return bool(ok.all())

    def diff(self, now, want):
        if now.shape != want.shape:
            return "shape %s instead of %s" % (now.shape, want.shape)
        bad = np.argwhere(now.astype(float) != want.astype(float))
        i, j = bad[0]
        return "%d pixels are wrong, e.g. (%d, %d) holds %s instead of %s" % (len(bad), i, j, now[i, j], want[i, j])


PROPS = {"C09": C09}

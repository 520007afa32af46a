"""C07: pattern updates that fail or are interrupted at any point."""
import numpy as np

from . import gen, lab
from .core import Property, Result
from .rng import rand

PATTERN_OPS = ("calc", "grating", "patch", "hologram", "on", "off", "reset")


def random_op(r, k, s, methods):
    how = r.choice(["array", "array", "array", "array", "tensor", "tensor", "profile"])
    if s["kind"] == "lcos":
        return gen.hologram(r, k, s, how=how) if r.random() < 0.85 else {"op": "reset", "slm": k}
    q = r.random()
    if q < 0.45:
        return gen.calc(r, k, s, methods=methods, how=how)
    if q < 0.65:
        return gen.grating(r, k, s, methods=methods, how=how)
    if q < 0.9:
        return gen.patch(r, k, s, methods=[m for m in methods if m != "ifta"] or ["random"], how=how)
    return {"op": r.choice(["on", "off"]), "slm": k}


def bad_variant(r, op):
    """(field, bad value) that makes this operation invalid"""
    t = op["op"]
    choices = []
    for f in ("input", "target", "amp", "pin", "pout"):
        if f in op:
            choices.append((f, gen.bad_arg(r)))
    if t in ("calc", "grating", "patch", "hologram"):
        choices.append(("method", r.choice(["nonsense", "ifta2", "RANDOM"])))
    if t == "calc":
        choices += [("window", gen.bad_arg(r)), ("target", {"as": "number", "v": 0.0}), ("input", {"as": "number", "v": 0.0})]
    kw = op.get("kw", {})
    if "signal_window" in kw:
        choices += [("kw.signal_window", gen.bad_arg(r)), ("kw.signal_window", "missing")]
    if "N" in kw:
        choices += [("kw.N", "many"), ("kw.N", [1, 2])]
    if "r" in kw:
        choices.append(("kw.r", "steep"))
    if t == "patch":
        choices += [("i", "top"), ("d", "wide"), ("j", None)]
    return list(r.choice(choices)) if choices else None


def apply_bad(op, bad):
    field, v = bad
    out = {k: w for k, w in op.items() if k not in ("fault", "bad")}
    if field.startswith("kw."):
        kw = dict(out.get("kw", {}))
        if v == "missing":
            kw.pop(field[3:], None)
        else:
            kw[field[3:]] = v
        out["kw"] = kw
    else:
        out[field] = v
    out["badarg"] = True
    return out


def is_random(op):
    return op["op"] in ("calc", "grating", "patch") and op.get("method") == "random" or op["op"] == "hologram"


class C07(Property):
    id = "C07"
    quick_runs = 130
    thorough_runs = 5000
    collect_every = 5
    rechecks = recheck_workers = 4
    technique = "deterministic simulation of sessions with interrupts, allocation, transform, random-source and argument failures injected at chosen points; twin session as oracle"
    rule = ("A case is a seeded session of 12-36 pattern-setting calls on 1-3 modulators, about 60% of them with one fault: KeyboardInterrupt or MemoryError at the "
            "k-th Python call of the library, an exception inside the k-th FFT or the random draw, or an argument that is invalid or fails when read. Every faulted "
            "call is repeated without the fault; a twin session executes only the repeated calls. Non-trivial: at least three faults made a call fail.")
    real = ["pySLM2.slm", "pySLM2._lib", "pySLM2.profile", "pySLM2.window", "TensorFlow kernels", "numpy FFT"]
    stub = ["random source (scripted uniform draws)", "failures"]
    assumptions = ["an interrupt is delivered where CPython can deliver one: at a Python call of the library outside graph tracing",
                   "the random source is tf.random.uniform; if the library draws from elsewhere exact comparison of random patterns is skipped"]
    state_measure = "hash of (operation, method, fault kind and place, pattern before/after relation, modulator kind)"
    level_note = ("Seeded search over operations x fault places; oracle: before-image, the same call repeated, and a twin session in which no fault happened, compared bit "
                  "for bit. Interrupts land on Python call boundaries of the library, not between arbitrary bytecodes and not during graph tracing.")

    def generate(self, seed, tier):
        r = rand("C07", seed)
        slms = [gen.slm_spec(r, mid=0.06, big=0.012) for _ in range(r.choice([1, 1, 1, 2, 2]))]
        if not any(s["kind"] == "dmd" for s in slms) and r.random() < 0.7:
            slms[0] = gen.slm_spec(r, "dmd")
        plan = {"bits": r.choice([32, 32, 64]), "fft": r.choice(["np", "np", "tf"]), "slms": slms}
        ops = []
        methods = r.choice([["random"], ["random", "ideal"], ["random", "simple"], ["random", "ifta"], ["ifta", "ideal"], ["ideal", "random", "simple"]])
        windows = r.random() < 0.3
        for _ in range(gen.cap(r.randint(14, 40), slms)):
            k = r.randrange(len(slms))
            op = random_op(r, k, slms[k], methods)
            if not windows:
                op.pop("window", None)
            q = r.random()
            has_fft = op["op"] in ("calc", "hologram") or op.get("method") == "ifta"
            if q < 0.28:
                op["fault"] = gen.call_fault(r, r.choice([6, 14, 34]))
            elif q < 0.4 and has_fft and plan["fft"] == "np":
                op["fault"] = gen.fft_fault(r, 1 if op["op"] == "calc" and op.get("method") != "ifta" else r.choice([1, 3, 8]))
            elif q < 0.46 and is_random(op):
                op["fault"] = gen.rng_fault(r)
            elif q < 0.66:
                b = bad_variant(r, op)
                if b:
                    op["bad"] = b
            ops.append(op)
        plan["ops"] = ops
        return plan

    def shrink_op(self, op):
        if op.get("fault") or op.get("bad"):
            yield {k: v for k, v in op.items() if k not in ("fault", "bad")}
        if op.get("kw") and "N" in op["kw"] and op["kw"]["N"] > 1:
            yield dict(op, kw=dict(op["kw"], N=1))
        if "window" in op:
            yield {k: v for k, v in op.items() if k != "window"}

    def execute(self, plan):
        res = Result()
        a = lab.Lab(plan, result=res)
        trace = []
        failures = 0
        n_slm = len(plan["slms"])
        pats = [lab.copy_of(a.pattern(k)) for k in range(n_slm)]
        for n, op in enumerate(plan["ops"]):
            k = op["slm"]
            held = a.pattern(k)
            before = pats[k]
            fault = op.get("fault")
            if fault or op.get("bad"):
                v = apply_bad(op, op["bad"]) if op.get("bad") else op
                out = a.do(v)
                after = lab.copy_of(a.pattern(k))
                intact = lab.same(held, before)
                failures += out.kind != "ok"
            clean = {x: y for x, y in op.items() if x not in ("fault", "bad")}
            where = None
            if fault or op.get("bad"):
                where = (op.get("bad") or [fault["kind"], fault["at"], fault["exc"]])
                if op.get("bad") and out.kind == "ok":
                    res.count("invalid_argument_accepted")
                    if n_slm:
                        res.notes.append("invalid argument accepted: %s" % (op["bad"],))
                    break
            again = a.do(clean, faults=False)
            new = lab.copy_of(a.pattern(k))
            if again.kind != "ok":
                res.violate("retry_fails", "op %d %s without a fault raised %s: %s" % (n, describe(op), again.exc_type, str(again.exc)[:200]))
                break
            exact = not is_random(op) or again.draws > 0
            trace.append((n, clean, new, eta(again), exact))
            if where is not None:
                self.judge(res, n, op, out, where, before, after, new, intact, exact)
            for j in range(n_slm):
                if j != k and not lab.same(a.pattern(j), pats[j]):
                    res.violate("other_modulator", "op %d %s changed the pattern of another modulator" % (n, describe(op)))
            pats[k] = new
            res.record(n, lab.summary(new), out.kind if where else None)
            if res.viol:
                break
        if not res.viol:
            b = lab.Lab(plan)
            for n, op, new, e, exact in trace:
                out = b.do(op, faults=False)
                if not exact:
                    continue
                if out.kind != "ok":
                    res.violate("twin", "op %d %s fails in a session without faults but not after them" % (n, describe(op)))
                    break
                if not lab.same(b.pattern(op["slm"]), new) or not lab.same(eta(out), e):
                    res.violate("history", "op %d %s: after earlier faults the result differs from the one without faults (%s)" % (
                        n, describe(op), difference(b.pattern(op["slm"]), new)))
                    break
        res.nontrivial = failures >= 3
        return res

    def judge(self, res, n, op, out, where, before, after, new, intact, exact):
        rel = "same" if lab.same(after, before) else "new" if lab.same(after, new) else "other"
        res.state(op["op"], op.get("method"), where, rel, out.kind)
        res.count("outcome:%s:%s" % (out.kind, rel))
        if out.kind == "ok":
            if out.fired and exact:
                if not agrees(after, new):
                    res.violate("swallowed", "op %d %s returned normally although %s failed inside, and its result is not the right one (%s)" % (
                        n, describe(op), where, difference(after, new)))
            return
        if not intact:
            res.violate("edited_in_place", "op %d %s failed (%s) and changed the pattern array handed out before" % (n, describe(op), out.exc_type))
            return
        if rel == "same":
            return
        injected = out.fired and out.fired[0] != "argument"
        if injected and out.fired[0] == "call" and (rel == "new" or not exact):
            return
        res.violate("torn" if rel == "other" else "failed_but_applied", "op %d %s failed with %s (%s) and left a pattern that is neither the previous one nor%s the new one (%s)" % (
            n, describe(op), out.exc_type, where, " allowed to be" if rel == "new" else "", difference(after, before)))


def eta(out):
    return None if out.value is None else np.float64(out.value)


def agrees(a, b):
    if a.shape != b.shape:
        return False
    if a.dtype == bool and b.dtype == bool:
        return int((a != b).sum()) <= max(2, 0.005 * a.size)
    return lab.close(a, b, 1e-3)


def difference(a, b):
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape or a.dtype != b.dtype:
        return "%s%s against %s%s" % (a.dtype, a.shape, b.dtype, b.shape)
    d = a != b
    return "%d of %d pixels differ" % (int(d.sum()), d.size)


def describe(op):
    return "%s%s" % (op["op"], "(%s)" % op["method"] if "method" in op else "")


PROPS = {"C07": C07}

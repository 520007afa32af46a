"""Coordinator: seeds -> runs in worker processes -> verdict, minimised replay file, evidence."""
import json
import os
import queue
import re
import subprocess
import sys
import threading
import time

from . import env
from .core import plan_digest
from .registry import get
from .rng import derive

VERIF = env.VERIF


class Worker:
    def __init__(self, prop_id, slot, results, hashseed=None):
        self.slot, self.results = slot, results
        e = dict(os.environ)
        e.update(env.ENV)
        e["PYTHONHASHSEED"] = str(hashseed if hashseed is not None else slot + 1)
        e["PYTHONPATH"] = VERIF
        self.proc = subprocess.Popen([env.PYTHON, "-m", "dst.worker", prop_id], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                     cwd=VERIF, env=e, text=True, bufsize=1)
        self.task = None
        self.started = time.time()
        self.ready = False
        self.dead = False
        self.busy = 0.0
        threading.Thread(target=self.read, daemon=True).start()

    def read(self):
        for line in self.proc.stdout:
            try:
                self.results.put((self, json.loads(line)))
            except ValueError:
                pass
        self.results.put((self, None))

    def send(self, task):
        self.task = task
        self.started = time.time()
        try:
            self.proc.stdin.write(json.dumps(task) + "\n")
            self.proc.stdin.flush()
        except (BrokenPipeError, OSError):
            pass

    def kill(self):
        self.dead = True
        try:
            self.proc.kill()
        except OSError:
            pass

    def close(self):
        self.dead = True
        try:
            self.proc.stdin.close()
        except OSError:
            pass
        try:
            self.proc.kill()
            self.proc.wait(5)
        except Exception:
            pass


class Pool:
    """Runs tasks in worker processes; yields (task, result). A result may be {'hang':True} or {'died':True}."""

    def __init__(self, prop, n, hashseeds=None):
        self.prop, self.n = prop, n
        self.results = queue.Queue()
        self.spawned = 0
        self.hashseeds = hashseeds
        self.workers = []

    def spawn(self):
        slot = self.spawned
        self.spawned += 1
        hs = self.hashseeds[slot % len(self.hashseeds)] if self.hashseeds else slot % 1000 + 1
        w = Worker(self.prop.id, slot, self.results, hs)
        self.workers.append(w)
        return w

    def run(self, tasks, on_result, stop=lambda: False, deadline=None, timeout=None, max_retries=1):
        timeout = timeout or self.prop.run_timeout
        pending = list(tasks)[::-1]
        retries = {}
        idle = [w for w in self.workers if not w.dead and w.ready and w.task is None]
        outstanding = 0

        def feed(w):
            nonlocal outstanding
            while pending:
                if stop() or (deadline and time.time() > deadline):
                    return False
                task = pending.pop()
                w.send(task)
                outstanding += 1
                return True
            return False
        for w in list(idle):
            feed(w)
        while len([w for w in self.workers if not w.dead]) < min(self.n, max(1, len(pending) + outstanding)):
            self.spawn()
        startup_failures = 0
        while True:
            alive = [w for w in self.workers if not w.dead]
            if outstanding == 0 and (not pending or stop() or (deadline and time.time() > deadline)):
                break
            if not alive:
                self.spawn()
            try:
                w, res = self.results.get(timeout=1.0)
            except queue.Empty:
                w = None
            now = time.time()
            for x in alive:
                limit = timeout if x.ready else 240
                if (x.task is not None or not x.ready) and now - x.started > limit and not x.dead:
                    x.kill()
                    if x.task is not None:
                        t, x.task = x.task, None
                        outstanding -= 1
                        k = retries[t["id"]] = retries.get(t["id"], 0) + 1
                        if k <= max_retries:
                            pending.append(t)
                        else:
                            on_result(t, {"id": t["id"], "hang": True})
                    if pending and not stop():
                        self.spawn()
            if w is None or w.dead:
                continue
            if res is None:                         # process ended
                w.dead = True
                if w.task is not None:
                    t, w.task = w.task, None
                    outstanding -= 1
                    k = retries[t["id"]] = retries.get(t["id"], 0) + 1
                    if k <= max_retries:
                        pending.append(t)
                    else:
                        on_result(t, {"id": t["id"], "died": True})
                else:
                    startup_failures += 1
                    if startup_failures > 10:
                        raise RuntimeError("worker processes do not start")
                if pending and not stop():
                    self.spawn()
                continue
            if "ready" in res:
                if not res["ready"]:
                    raise RuntimeError("worker cannot start: " + res.get("error", ""))
                w.ready = True
                w.started = time.time()
                feed(w)
                continue
            t, w.task = w.task, None
            outstanding -= 1
            w.busy += time.time() - w.started
            on_result(t, res)
            if res.get("recycle"):
                w.close()
                if pending and not stop():
                    self.spawn()
            else:
                feed(w)

    def close(self):
        for w in self.workers:
            w.close()


def load_findings():
    out = []
    path = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r"finding: property=(\S+) class=(\S+) match=(\S+) (.*)", line.strip())
            if m:
                out.append(dict(property=m.group(1), cls=m.group(2), match=m.group(3), text=m.group(4)))
    return out


def known(findings, prop_id, viol):
    for f in findings:
        if f["property"] == prop_id and f["cls"] == viol[0] and re.search(f["match"], viol[1]):
            return f
    return None


def minimise(prop, pool, plan, cls, budget_s):
    """Greedy delta debugging; a candidate counts if it shows a violation of the same class."""
    t_end = time.time() + budget_s
    best, tried, seen = plan, 0, {plan_digest(plan)}
    improved = True
    while improved and time.time() < t_end:
        improved = False
        gen = prop.shrink(best)
        batch = []
        exhausted = False
        while not exhausted and not improved and time.time() < t_end:
            batch = []
            while len(batch) < pool.n:
                try:
                    c = next(gen)
                except StopIteration:
                    exhausted = True
                    break
                d = plan_digest(c)
                if d in seen:
                    continue
                seen.add(d)
                batch.append(c)
            if not batch:
                break
            got = {}
            pool.run([{"id": k, "plan": c} for k, c in enumerate(batch)], lambda t, r: got.__setitem__(t["id"], r), max_retries=0)
            tried += len(batch)
            for k in sorted(got):
                if any(v[0] == cls for v in got[k].get("viol") or []):
                    best = batch[k]
                    improved = True
                    break
    return best, tried


def check(prop_id):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    prop = get(prop_id)
    n = prop.quick_runs if tier == "quick" else prop.thorough_runs
    n = int(os.environ.get("VERIF_RUNS", n))
    workers = int(os.environ.get("VERIF_WORKERS", "8"))
    wall_cap = 330 if tier == "quick" else 3 * 3600
    print("property=%s tier=%s seed=%d runs=%d workers=%d" % (prop_id, tier, seed, n, workers), flush=True)
    findings = load_findings()
    pool = Pool(prop, workers)
    agg = dict(stats={}, states=set(), plans=set(), nontrivial=set(), sim_us=0, runs=0, samples=[], errors=[], known={}, digests={})
    violations = []

    def on_result(task, res):
        if res.get("hang"):
            violations.append((task, res, ("does_not_finish", "the run does not finish within %d s (twice)" % prop.run_timeout)))
            return
        if res.get("died") or res.get("error"):
            agg["errors"].append((task, res.get("error") or "worker process died twice"))
            return
        agg["runs"] += 1
        for k, v in res["stats"].items():
            agg["stats"][k] = agg["stats"].get(k, 0) + v
        agg["states"].update(res["states"])
        d = res.get("plan_digest") or plan_digest(res["plan"])
        agg["plans"].add(d)
        if res["nontrivial"]:
            agg["nontrivial"].add(d)
        agg["sim_us"] += res["sim_us"]
        agg["digests"][task["id"]] = res["digest"]
        if task.get("want_plan"):
            agg["samples"].append({"seed": task["seed"], "plan": clip(res["plan"])})
        for v in res["viol"]:
            f = known(findings, prop_id, v)
            if f:
                agg["known"][f["text"]] = agg["known"].get(f["text"], 0) + 1
                continue
            violations.append((task, res, tuple(v)))

    tasks = [{"id": i, "seed": derive(seed, prop_id, i), "tier": tier, "want_plan": i < 3} for i in range(n)]
    code = 0
    try:
        pool.run(tasks, on_result, stop=lambda: bool(violations) or len(agg["errors"]) > 3, deadline=t0 + wall_cap)
        t_search = time.time() - t0
        rechecks = mismatches = 0
        if not violations and not agg["errors"]:
            # prove the runs repeat: the same seeds again in other processes with other hash seeds
            pool2 = Pool(prop, min(prop.recheck_workers if hasattr(prop, "recheck_workers") else 2, workers), hashseeds=[101, 202, 303, 404, 505, 606, 707, 808])
            m = min(getattr(prop, "rechecks", 8), n)
            got = {}
            try:
                pool2.run([tasks[i] for i in range(m) if i in agg["digests"]], lambda t, r: got.__setitem__(t["id"], r), deadline=t0 + wall_cap + 120)
            finally:
                pool2.close()
            for i, r in sorted(got.items()):
                rechecks += 1
                if r.get("digest") != agg["digests"][i]:
                    mismatches += 1
                    if getattr(prop, "digest_is_property", False):
                        violations.append((dict(tasks[i]), dict(r, plan=None), ("not_repeatable", "two processes executing the same session with the same seed got different results")))
        if violations:
            code = report(prop, pool, seed, tier, violations, findings)
    finally:
        pool.close()
    wall = time.time() - t0
    if code == 0 and agg["errors"]:
        code = 2
        for t, e in agg["errors"][:3]:
            print("HARNESS-ERROR seed=%s\n%s" % (t.get("seed"), e), flush=True)
    for text, k in agg["known"].items():
        print("KNOWN-FINDING: property=%s %s" % (prop_id, text), flush=True)
    faults = {k[6:]: v for k, v in agg["stats"].items() if k.startswith("fault:")}
    other = {k: v for k, v in agg["stats"].items() if not k.startswith("fault:")}
    ev = dict(property=prop_id, tier=tier, seed=seed, level=prop.level, wall_s=round(wall, 2), violations=len(violations),
              assumptions=prop.assumptions,
              coverage=dict(evaluations=agg["runs"], distinct_nontrivial=len(agg["nontrivial"]), rule=prop.rule, samples=agg["samples"][:3],
                            planned_runs=n, distinct_plans=len(agg["plans"]), runs_per_hour=int(agg["runs"] / max(wall, 1e-3) * 3600),
                            seeds_per_hour=int(len(agg["plans"]) / max(wall, 1e-3) * 3600),
                            simulated_time_s=round(agg["sim_us"] / 1e6, 3), faults_injected=faults, counters=other,
                            distinct_states=len(agg["states"]), state_measure=prop.state_measure,
                            determinism_rechecks=rechecks if code != 1 else 0, determinism_mismatches=mismatches if code != 1 else 0,
                            real_components=prop.real, stubbed_components=prop.stub, workers=workers,
                            known_findings_seen=len(agg["known"])))
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    tmp = os.path.join(VERIF, "evidence", ".%s.tmp" % prop_id)
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1, default=str)
    os.replace(tmp, os.path.join(VERIF, "evidence", "%s.json" % prop_id))
    print("runs=%d states=%d faults=%s rechecks=%d mismatches=%d wall=%.1fs exit=%d" % (
        agg["runs"], len(agg["states"]), faults, rechecks if code != 1 else 0, mismatches if code != 1 else 0, wall, code), flush=True)
    return code


def clip(plan, limit=4000):
    s = json.dumps(plan)
    return plan if len(s) <= limit else s[:limit] + "..."


def report(prop, pool, seed, tier, violations, findings):
    violations.sort(key=lambda v: v[0]["id"])
    task, res, viol = violations[0]
    plan = res.get("plan")
    if plan is None:
        plan = prop.generate(task["seed"], tier)
    cls, msg = viol
    tried = 0
    best = plan
    if cls not in ("does_not_finish", "not_repeatable"):
        best, tried = minimise(prop, pool, plan, cls, 60 if tier == "quick" else 240)
    outdir = os.path.join(VERIF, "replays")
    os.makedirs(outdir, exist_ok=True)
    ok = False
    for candidate in ([best, plan] if best is not plan else [plan]):
        path = os.path.join(outdir, "%s-%d-%d.json" % (prop.id, seed, task["id"]))
        doc = dict(property=prop.id, seed=seed, run=task["id"], run_seed=task["seed"], tier=tier, cls=cls, message=msg, plan=candidate)
        with open(path, "w") as f:
            json.dump(doc, f, indent=1)
        rc, text = replay_process(path, prop)
        if rc == 1:
            ok = True
            m = re.search(r"^violation class=\S+ (.*)$", text, re.M)
            if m:
                msg = m.group(1)
            break
    if not ok:
        for _ in range(2):                 # a run that does not repeat on changed code
            rc, text = replay_process(path, prop)
            if rc == 1:
                ok = True
                break
    print("%s: class=%s run=%d seed=%d minimised to %s operations (%d candidates): %s" % (
        prop.id, cls, task["id"], task["seed"], len(best.get("ops", [])), tried, msg), flush=True)
    if not ok:
        print("HARNESS-ERROR the violation was not reproduced from its replay file", flush=True)
        return 2
    print("VIOLATION property=%s replay=%s" % (prop.id, path), flush=True)
    return 1


def replay_process(path, prop):
    e = dict(os.environ)
    e["PYTHONPATH"] = VERIF
    e.update(env.ENV)
    try:
        p = subprocess.run([env.PYTHON, "-m", "dst.replay", path], cwd=VERIF, env=e, text=True, stdout=subprocess.PIPE,
                           stderr=subprocess.DEVNULL, timeout=2 * prop.run_timeout + 60)
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired:
        return (1, "") if json.load(open(path))["cls"] == "does_not_finish" else (2, "")

"""Worker process: executes runs of one property, one JSON task per line."""
import gc
import json
import os
import resource
import sys
import traceback

from . import env


def main():
    prop_id = sys.argv[1]
    out = os.fdopen(os.dup(1), "w")
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    if not os.environ.get("VERIF_DEBUG"):
        os.dup2(devnull, 2)
    env.apply_env()
    import warnings
    warnings.simplefilter("ignore")
    from .registry import get
    prop = get(prop_id)
    try:
        if prop.needs_tf:
            env.tf()
        gc.collect()
        gc.freeze()
        out.write(json.dumps({"ready": True}) + "\n")
    except BaseException:
        out.write(json.dumps({"ready": False, "error": traceback.format_exc()}) + "\n")
    out.flush()
    done = 0
    for line in sys.stdin:
        task = json.loads(line)
        res = run_task(prop, task)
        done += 1
        rss = int(open("/proc/self/statm").read().split()[1]) * resource.getpagesize() // 2 ** 20
        res["recycle"] = rss > 2200
        out.write(json.dumps(res) + "\n")
        out.flush()


def run_task(prop, task):
    res = {"id": task["id"]}
    plan = None
    try:
        plan = task["plan"] if "plan" in task else prop.generate(task["seed"], task.get("tier", "quick"))
        plan = json.loads(json.dumps(plan))
        r = prop.execute(plan)
        res.update(viol=r.viol, stats=r.stats, states=sorted(r.states), sim_us=int(r.sim_us), digest=r.digest(),
                   nontrivial=bool(r.nontrivial), notes=r.notes[:5])
    except BaseException as e:
        tb = traceback.extract_tb(e.__traceback__)
        text = traceback.format_exc()[-3000:]
        if any(env.is_lib_file(f.filename) for f in tb):
            where = [f for f in tb if env.is_lib_file(f.filename)][-1]
            res.update(viol=[("library_raised", "the library raised %s at %s:%s without an injected fault: %s" % (
                type(e).__name__, os.path.basename(where.filename), where.name, str(e)[:300]))],
                stats={}, states=[], sim_us=0, digest="raised", nontrivial=True, notes=[text[-1500:]])
        else:
            res["error"] = text
    if task.get("want_plan") or res.get("viol") or res.get("error"):
        res["plan"] = plan
    else:
        from .core import plan_digest
        res["plan_digest"] = plan_digest(plan)
    if prop.collect_every and task["id"] % prop.collect_every == 0:
        gc.collect()
    return res


if __name__ == "__main__":
    main()

"""python -m dst.replay FILE: executes one replay file; exit 1 if it shows its violation, 0 if not."""
import gc
import json
import os
import sys


def main():
    from . import env
    env.apply_env()
    import warnings
    warnings.simplefilter("ignore")
    from .registry import get
    from .worker import run_task
    doc = json.load(open(sys.argv[1]))
    prop = get(doc["property"])
    if doc["cls"] == "not_repeatable":
        return replay_pair(doc, prop)
    if prop.needs_tf:                          # the same start as a worker
        env.tf()
    gc.collect()
    gc.freeze()
    res = run_task(prop, {"id": 0, "plan": doc["plan"], "want_plan": True})
    if res.get("error"):
        print(res["error"])
        return 2
    for v in res["viol"]:
        print("violation class=%s %s" % tuple(v))
    for n in res.get("notes", []):
        print("note:", n)
    print("log digest", res["digest"])
    same = [v for v in res["viol"] if v[0] == doc["cls"]]
    if same:
        print("VIOLATION property=%s replay=%s" % (doc["property"], os.path.abspath(sys.argv[1])))
        return 1
    return 1 if res["viol"] else 0


def replay_pair(doc, prop):
    from .runner import Pool
    digests = set()
    for hs in ([11], [22], [33]):
        pool = Pool(prop, 1, hashseeds=hs)
        try:
            pool.run([{"id": 0, "plan": doc["plan"]}], lambda t, r: digests.add(r.get("digest")))
        finally:
            pool.close()
    print("digests", digests)
    if len(digests) > 1:
        print("VIOLATION property=%s replay=%s" % (doc["property"], os.path.abspath(sys.argv[1])))
        return 1
    return 0


if __name__ == "__main__":
    sys.stdout.flush()
    code = main()
    sys.stdout.flush()
    os._exit(code)

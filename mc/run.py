#!/usr/bin/env python3
"""Entry point of every check.

    run.py <PROPERTY> [--tier quick|thorough] [--replay FILE] [--jobs N] [--only SUBSTR]

Enumerates the property's bounded task list (every task = one explored region of the state
space), runs all of them against the decomon in /repo/src on worker processes, merges
the counts, writes evidence/<PROPERTY>.json and exits 0 / 1.
"""
import argparse
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("MC_REPO", "/repo")
VENV = "/opt/venv/bin/python"


def set_env():
    env = os.environ
    env["PYTHONDONTWRITEBYTECODE"] = "1"
    env["PYTHONHASHSEED"] = "0"
    env.setdefault("KERAS_HOME", "/tmp/mc_keras_home")
    env["CUDA_VISIBLE_DEVICES"] = ""
    env["TF_CPP_MIN_LOG_LEVEL"] = "3"
    for k in ("TF_NUM_INTRAOP_THREADS", "TF_NUM_INTEROP_THREADS", "OMP_NUM_THREADS", "MKL_NUM_THREADS", "OPENBLAS_NUM_THREADS"):
        env[k] = "1"
    env["PYTHONPATH"] = REPO + "/src:" + VERIF
    env["PYTHONWARNINGS"] = "ignore"
    env["MC_REPO"] = REPO


def worker_main(prop, conn):
    import warnings

    warnings.filterwarnings("ignore")
    sys.path[:0] = [REPO + "/src", VERIF]
    try:
        import keras

        keras.mixed_precision.set_dtype_policy("float32")
        if keras.backend.backend() == "torch":
            import torch

            # oneDNN convolutions of this torch read uninitialised memory for some strides
            torch.backends.mkldnn.enabled = False
            torch.set_num_threads(1)
        import decomon

        assert os.path.realpath(decomon.__file__).startswith(os.path.realpath(REPO) + "/"), decomon.__file__
        mod = importlib.import_module("mc.checks." + prop.lower())
        from mc import common
    except BaseException:
        conn.send({"fatal": traceback.format_exc()})
        return
    conn.send({"ready": True})
    while True:
        task = conn.recv()
        if task is None:
            return
        t0 = time.time()
        res = common.Result(prop, task)
        try:
            mod.run_task(task, res)
        except BaseException as e:  # noqa
            if isinstance(e, KeyboardInterrupt):
                raise
            tb = traceback.format_exc()
            if "/src/decomon/" in tb:
                res.violation("crash:" + type(e).__name__, "code under test raised %s: %s" % (type(e).__name__, str(e)[:300]), {"traceback": tb[-3000:]})
            else:
                conn.send({"fatal": tb, "partial": dict(res.as_dict(), wall=time.time() - t0) if res.violations else None})
                continue
        out = res.as_dict()
        out["wall"] = time.time() - t0
        conn.send(out)


def run_tasks(prop, tasks, jobs, deadline):
    """tasks: list of dict with a 'backend' key. Returns results in task order."""
    import multiprocessing.connection as mpc

    ctx = mp.get_context("spawn")
    results = [None] * len(tasks)
    by_backend = {}
    for i, t in enumerate(tasks):
        by_backend.setdefault(t.get("backend", "torch"), []).append(i)
    tot = sum(float(t.get("cost", 1)) for t in tasks) or 1
    todo = {}
    workers = {}  # connection -> [process, backend, running task]

    def start(backend):
        os.environ["KERAS_BACKEND"] = backend
        here, there = ctx.Pipe()
        p = ctx.Process(target=worker_main, args=(prop, there), daemon=True)
        p.start()
        there.close()
        workers[here] = [p, backend, None]

    for b, idx in sorted(by_backend.items()):
        todo[b] = sorted(idx, key=lambda i: float(tasks[i].get("cost", 1)))
        w = sum(float(tasks[i].get("cost", 1)) for i in idx)
        for _ in range(min(len(idx), max(1, int(round(jobs * w / tot))))):
            start(b)
    fatal = None
    while workers and time.time() < deadline:
        for c in mpc.wait(list(workers), timeout=2):
            p, b, i = workers[c]
            try:
                r = c.recv()
            except (EOFError, OSError):
                p.join(5)
                del workers[c]
                if i is None and p.exitcode == 0:
                    continue
                if p.exitcode not in (-4, -6, -8, -11) or i is None:
                    fatal = "a worker process died with exit code %s on %s" % (p.exitcode, tasks[i] if i is not None else None)
                    continue
                # native code aborted while running this task: a crash of the code under test
                v = {"key": "%s|crash:signal%d" % (tasks[i].get("id", ""), -p.exitcode), "what": "the process was killed by signal %d" % -p.exitcode, "task": tasks[i], "detail": {}}
                results[i] = {"states": 0, "transitions": 0, "traces": 0, "counters": {}, "outcomes": [], "samples": [], "wall": 0, "violations": [v]}
                if todo[b]:
                    start(b)
                continue
            if "fatal" in r:
                fatal = r["fatal"]
                if i is not None and r.get("partial"):
                    results[i] = r["partial"]  # what it found before the harness failed
            elif i is not None:
                results[i] = r
                if r["violations"] and os.environ.get("MC_FAILFAST"):
                    for p, _, _ in workers.values():
                        p.kill()
                    return results, fatal
            if i is None and "fatal" in r:
                del workers[c]
                continue
            workers[c][2] = todo[b].pop() if todo[b] else None
            try:
                c.send(tasks[workers[c][2]] if workers[c][2] is not None else None)
            except OSError:
                pass
    for p, _, _ in workers.values():
        if p.is_alive():
            p.terminate()
    return results, fatal


def jsonable(o):
    try:
        import numpy as np

        if isinstance(o, np.ndarray):
            return o.tolist()
        if isinstance(o, (np.floating, np.integer, np.bool_)):
            return o.item()
    except ImportError:
        pass
    return str(o)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--jobs", type=int, default=8)
    ap.add_argument("--only")
    ap.add_argument("--limit", type=float, default=None, help="wall limit in seconds")
    ap.add_argument("--list", action="store_true")
    a = ap.parse_args()
    prop = a.prop.upper()
    if sys.executable != VENV and os.path.realpath(sys.executable) != os.path.realpath(VENV) or "/opt/venv" not in sys.prefix:
        set_env()
        os.execv(VENV, [VENV, os.path.abspath(__file__)] + sys.argv[1:])
    set_env()
    t0 = time.time()
    limit = a.limit or (840 if a.tier == "quick" else 6 * 3600)
    sys.path.insert(0, VERIF)
    mod = importlib.import_module("mc.checks." + prop.lower())
    if a.replay:
        with open(a.replay) as f:
            rec = json.load(f)
        tasks = [rec["task"]]
    else:
        tasks = mod.tasks(a.tier)
        if a.only:
            tasks = [t for t in tasks if a.only in json.dumps(t)]
    if a.list:
        for t in tasks:
            print(json.dumps(t))
        print(len(tasks), "tasks")
        return 0
    results, fatal = run_tasks(prop, tasks, a.jobs, t0 + limit)
    if fatal and "/src/decomon/" not in fatal and not any(r and r["violations"] for r in results):
        sys.stderr.write("harness error:\n" + fatal + "\n")
        return 2
    done = [r for r in results if r is not None]
    agg = {"states": 0, "transitions": 0, "traces": 0}
    extra = {}
    outcomes = set()
    samples = []
    viols = []
    for r in done:
        for k in agg:
            agg[k] += r[k]
        for k, v in r["counters"].items():
            extra[k] = extra.get(k, 0) + v
        outcomes.update(r["outcomes"])
        viols += r["violations"]
    step = max(1, len(done) // 6)
    for r in done[::step]:
        samples += r["samples"][:2]
    if fatal and "/src/decomon/" in fatal:
        viols.append({"key": "import:crash", "what": "decomon cannot be loaded/run", "task": {}, "detail": {"traceback": fatal[-3000:]}})
    known = {}
    kf = os.path.join(VERIF, "known_findings.json")
    if os.path.exists(kf):
        with open(kf) as f:
            for e in json.load(f)["findings"]:
                if e["property"] == prop and e.get("status", "open") == "open":
                    known[e["key"]] = e
    seen_known = {}
    fresh = []
    for v in viols:
        if v["key"] in known:
            seen_known.setdefault(v["key"], v)
        else:
            fresh.append(v)
    for k in sorted(seen_known):
        print("KNOWN-FINDING: property=%s %s [%s]" % (prop, known[k]["what"], k))
    complete = len(done) == len(tasks) and not fatal
    bykey = {}
    for v in fresh:
        bykey.setdefault(v["key"], v)
    rdir = os.path.join(VERIF, "replays")
    shown = 0
    for k in sorted(bykey):
        v = bykey[k]
        os.makedirs(rdir, exist_ok=True)
        h = hashlib.sha1((prop + k).encode()).hexdigest()[:10]
        path = os.path.join(rdir, "%s-%s.json" % (prop, h))
        with open(path, "w") as f:
            json.dump({"property": prop, "key": k, "what": v["what"], "task": v["task"], "detail": v["detail"], "replay_cmd": "python3 mc/run.py %s --replay %s" % (prop, path)}, f, indent=1, default=jsonable)
        if shown < 25:
            print("VIOLATION property=%s replay=%s" % (prop, path))
            print("   key=%s :: %s" % (k, " ".join(v["what"].split())[:400]))
            shown += 1
    wall = time.time() - t0
    if not a.replay and not a.only:
        ev = {
            "property": prop,
            "tier": a.tier,
            "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
            "level": "model_checking",
            "coverage": {
                "states": agg["states"],
                "transitions": agg["transitions"],
                "traces_validated_against_impl": agg["traces"],
                "distinct_outcomes": len(outcomes),
                "tasks_total": len(tasks),
                "tasks_completed": len(done),
                "exhaustive": bool(complete),
                "bounds": getattr(mod, "BOUNDS", ""),
                "counters": extra,
                "samples": samples[:12],
            },
            "assumptions": getattr(mod, "ASSUMPTIONS", []),
            "wall_s": round(wall, 2),
            "violations": len(bykey),
        }
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=jsonable)
    print(
        "%s tier=%s tasks=%d/%d states=%d transitions=%d traces=%d outcomes=%d violations=%d known=%d wall=%.1fs"
        % (prop, a.tier, len(done), len(tasks), agg["states"], agg["transitions"], agg["traces"], len(outcomes), len(bykey), len(seen_known), wall)
    )
    if os.environ.get("MC_TIMES"):
        for t, r in sorted(zip(tasks, results), key=lambda tr: -(tr[1] or {}).get("wall", 0))[:12]:
            print("  %.1fs %s" % ((r or {}).get("wall", -1), json.dumps(t)[:200]))
    if bykey:
        return 1
    if not done:
        sys.stderr.write("nothing was explored within the limit\n")
        return 2
    if not complete:
        print("note: wall limit reached, %d of %d tasks not explored (exhaustive=false in the evidence)" % (len(tasks) - len(done), len(tasks)))
    return 0


if __name__ == "__main__":
    sys.exit(main())

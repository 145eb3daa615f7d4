"""C21: the same network bounded in lockstep by two backends, and by the compiled prediction on unknown batch sizes."""
import os
import pickle
import subprocess
import sys

import numpy as np

from mc import common, nets

BOUNDS = (
    "all words of length 1 over the layer alphabet and 12 words of length 2 (thorough: all words of length 2 over the core alphabet) x every method "
    "supporting them, constant and affine bounds, x boxes and l1, l2, linf balls, x the 5 slopes on a sub-alphabet x fine-tuning x 1 weight pattern (2 in "
    "the thorough tier) x all boxes (centres) of the lattice, for: the tensorflow and the torch backends, and for the (compiled, with tensorflow) prediction by batches "
    "of unknown size against the prediction on a single batch (not for the slopes)"
)
ASSUMPTIONS = [
    "networks, domains and weights restricted to the stated lattices",
    "constant bounds are compared on every domain (not on single points with softplus, whose relaxation there is loose by an amount that rounding decides); affine bounds are compared by their values at all lattice points of the domains which are not reduced to a point, where "
    "their slopes are not determined up to rounding",
    "jax is not installed here",
]
ORACLE = "the other backend, and the prediction on a single batch."
PAIRS = [("dense_relu", "tanh"), ("conv_same", "relu"), ("res_add", "relu"), ("res_max", "dense"), ("maxpool", "dense_relu"), ("res_concat", "sigmoid"), ("res_mul", "relu"),
         ("bn", "relu"), ("nested", "softsign"), ("softplus", "dense_relu"), ("dense3d", "tanh"), ("avg3", "relu")]
# weights without coincidences: a tie (between the two slopes of a relu, say) may be broken by rounding
GENERIC = (0.9371, -1.0619, 0.4713, -0.7331, 1.2177, 0.1391, -0.5283, 0.8117)
DOMAINS = {"box": None, "l2": (0.75, 2), "l1": (1.0, 1), "linf": (0.5, np.inf)}


def tasks(tier):
    import itertools

    words = [(m,) for m in nets.MACROS] + PAIRS
    if tier == "thorough":
        from mc.checks import c01

        words += [w for w in itertools.product(c01.CORE, repeat=2) if w not in words]
    jobs = []
    for i, w in enumerate(words):
        ms = [m for m in nets.METHODS if nets.supported(w, m)]
        for j, m in enumerate(ms):
            jobs.append({"word": list(w), "method": m, "dom": "box", "kw": {"final_ibp": True, "final_affine": True}})
            dom = ("l2", "l1", "linf")[(i + j) % 3]
            if tier == "thorough" or (i + j) % 2 == 0:
                jobs.append({"word": list(w), "method": m, "dom": dom, "kw": {}})
    for w in (("relu",), ("tanh",), ("sigmoid",), ("res_max",), ("maxpool",), ("dense_relu", "softplus")):
        for m in nets.METHODS:
            for s in nets.SLOPES[1:]:
                if nets.supported(w, m, s):
                    jobs.append({"word": list(w), "method": m, "dom": "box", "kw": {"slope": s}})
            if nets.supported(w, m) and m != "forward-ibp":
                jobs.append({"word": list(w), "method": m, "dom": "box", "kw": {"finetune": True}})
    out = []
    n = 48 if tier == "thorough" else 16
    for k in range(n):
        out.append({"id": "lockstep/%d" % k, "jobs": jobs[k::n], "tier": tier, "backend": "tensorflow", "cost": len(jobs[k::n])})
    return out


def job_id(job):
    return "+".join(job["word"]) + "/" + job["method"] + "/" + job["dom"] + "/" + ",".join("%s=%s" % (k, job["kw"][k]) for k in sorted(job["kw"]) if not k.startswith("final"))


def compiled(job):
    return "slope" not in job["kw"]


def space(job):
    """domains, points, masks"""
    dom = DOMAINS[job["dom"]]
    if dom is None:
        z = common.boxes([-1.5, 0.0, 1.0], 2)
        X = common.points(common.refine([-1.5, 0.0, 1.0], 2), 2)
        return z, X, common.inside(z, X)
    z = common.points([-1.0, 0.0, 0.5], 2)
    X = common.points(np.round(np.arange(-2, 2.01, 0.5), 3).tolist(), 2)
    return z, X, common.in_ball(z, X, dom[0], dom[1])


def bounds(job, k, batches=False):
    """bounds of the network of the job: run by both backends"""
    from decomon.core import BallDomain
    from decomon.models import clone

    model = nets.build(nets.word_program(job["word"]))
    W = nets.pattern_weights(model, k, GENERIC)
    model.set_weights([w + np.float32(0.03) * np.sin(3 * i + 0.7 * np.arange(w.size)).astype(np.float32).reshape(w.shape) for i, w in enumerate(W)])
    dom = DOMAINS[job["dom"]]
    kw = dict(job["kw"])
    if dom is not None:
        kw["perturbation_domain"] = BallDomain(eps=dom[0], p=dom[1])
    d = clone(model, method=job["method"], **kw)
    z = space(job)[0]
    out = [np.asarray(o) for o in d.predict_on_single_batch_np(z)]
    graph = None
    if batches:
        graph = d.predict(z, batch_size=4, verbose=0)
        graph = [np.asarray(o) for o in (graph if isinstance(graph, (list, tuple)) else [graph])]
    return out, d.ibp, d.affine, graph


def serve():
    """the other backend: jobs on stdin, bounds on stdout"""
    jobs, ks = pickle.loads(sys.stdin.buffer.read())
    out = sys.stdout.buffer
    sys.stdout = sys.stderr
    import torch

    torch.backends.mkldnn.enabled = False
    torch.set_num_threads(1)
    import traceback

    res = []
    for job in jobs:
        for k in ks:
            try:
                res.append(bounds(job, k, batches=True))
            except Exception:
                res.append(traceback.format_exc())
    out.write(pickle.dumps(res))
    out.flush()


def same(res, key, a, b, job, what):
    """compare two lists of bounds"""
    A, ibp, affine = a[:3]
    B = b[0]
    if a[1:3] != b[1:3] or len(A) != len(B) or any(x.shape != y.shape for x, y in zip(A, B)):
        res.violation(key + ":shape", "%s: outputs of different shapes %s and %s" % (what, [x.shape for x in A], [y.shape for y in B]))
        return
    if any(x.dtype != y.dtype for x, y in zip(A, B)):
        res.violation(key + ":dtype", "%s: outputs of different types" % what)
    z, X, mask = space(job)
    ra, rb = common.unpack(A, ibp, affine), common.unpack(B, ibp, affine)
    thick = np.ones(len(z), bool)
    if "softplus" in job["word"] and DOMAINS[job["dom"]] is None:
        thick = (z[:, 1] > z[:, 0]).any(1)
    for n in ("u", "l"):
        if n in ra:
            e = np.where(thick[:, None], np.abs(ra[n] - rb[n]) / (1 + np.abs(ra[n])), 0)
            if not e.max() <= 2e-4:
                i = np.unravel_index(int(np.argmax(np.where(np.isfinite(e), e, np.inf))), e.shape)
                res.violation("%s:%s" % (key, n), "%s: the constant %s bound is %.6g with one and %.6g with the other, domain %s" % (what, n, ra[n][i], rb[n][i], z[i[0]].tolist()))
    if affine:
        free = (z[:, 1] > z[:, 0]).all(1) if DOMAINS[job["dom"]] is None else np.ones(len(z), bool)
        for w, b_ in (("wu", "bu"), ("wl", "bl")):
            va = np.einsum("pd,bdo->bpo", X.astype(np.float64), ra[w]) + ra[b_][:, None]
            vb = np.einsum("pd,bdo->bpo", X.astype(np.float64), rb[w]) + rb[b_][:, None]
            m = mask & free[:, None]
            e = np.where(m[:, :, None], np.abs(va - vb) / (1 + np.abs(va)), 0)
            if not e.max() <= 1e-3:
                i = np.unravel_index(int(np.argmax(np.where(np.isfinite(e), e, np.inf))), e.shape)
                res.violation("%s:%s" % (key, w), "%s: the affine %s bound is %.6g with one and %.6g with the other at %s, domain %s" % (what, w[1], va[i], vb[i], X[i[1]].tolist(), z[i[0]].tolist()))
    res.states += len(z)
    res.transitions += int(mask.sum())
    res.traces += 1


def run_task(task, res):
    ks = (0,) if task["tier"] == "quick" else (0, 3)
    env = dict(os.environ, KERAS_BACKEND="torch")
    p = subprocess.Popen([sys.executable, "-c", "from mc.checks import c21; c21.serve()"], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env)
    import threading

    other = []
    t = threading.Thread(target=lambda: other.extend(p.communicate(pickle.dumps((task["jobs"], ks)))))
    t.start()
    mine = []
    for job in task["jobs"]:
        for k in ks:
            try:
                mine.append(bounds(job, k, batches=compiled(job)))
            except Exception as e:
                import traceback

                mine.append(traceback.format_exc())
    t.join()
    if p.returncode != 0:
        raise RuntimeError("the torch process failed: " + other[1].decode()[-2000:])
    theirs = pickle.loads(other[0])
    i = 0
    for job in task["jobs"]:
        for k in ks:
            a, b = mine[i], theirs[i]
            i += 1
            key = "%s/w%d" % (job_id(job), k)
            bad = [x for x in (a, b) if isinstance(x, str)]
            if bad:
                if not all("/src/decomon/" in x for x in bad):
                    raise RuntimeError(bad[0])
                res.violation(key + ":crash", "the conversion or the prediction fails: %s" % bad[0].strip().splitlines()[-1], {"traceback": bad[0][-3000:]})
                continue
            same(res, key, a, b, job, "tensorflow and torch")
            if a[3] is not None:
                same(res, key + "/tf-batches", a, (a[3], a[1], a[2]), job, "tensorflow on a single batch and compiled by batches")
            same(res, key + "/torch-batches", b, (b[3], b[1], b[2]), job, "torch on a single batch and by batches")
            res.outcome(a[0][0])
            if i == 1:
                res.sample({"job": job, "bounds": np.round(a[0][0].ravel()[:4], 4).tolist()})

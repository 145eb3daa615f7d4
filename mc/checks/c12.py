"""C12: bounds and scores of a sample do not depend on batching nor on the other samples."""
import itertools

import numpy as np

from mc import common, nets
from mc.checks.c10 import NETS

METHODS = nets.METHODS
BOUNDS = (
    "5 networks x 7 methods and 5 networks x 2 methods x {converted model, range_box, adv_box, check_adv_box, refined range/adv, refine_box, range_noise, adv_noise} "
    "x ordered selections of 2, 3 and 4 samples out of 4 boxes of very different scales (every pair on 2 networks; thorough: every selection with repetition up to 3) x all "
    "batch sizes from -1 to 4 x n_sub_boxes in {1,2,4}; compared with the single sample evaluation; slopes crossed on 2 networks"
)
ASSUMPTIONS = ["up to float32 rounding (1e-4 relative)"]
BX = np.array([[[-1.0, -1.0, -1.0], [1.0, 1.0, 0.5]], [[0.25, 0.25, 0.0], [0.25, 0.5, 0.25]], [[-60.0, 10.0, -5.0], [80.0, 30.0, 20.0]], [[-0.5, -0.75, -1.0], [-0.25, -0.5, -1.0]]], np.float32)


def tasks(tier):
    out = []
    for n in NETS:
        for m in METHODS:
            word = {"merge": ("res_add",), "conv": ("conv",)}.get(n, ())
            if tier == "quick" and n in ("bn", "relu2", "softmax", "linear", "merge") and m not in ("crown", "forward-hybrid"):
                continue
            if nets.supported(word, m):
                out.append({"id": "%s/%s" % (n, m), "net": n, "method": m, "slope": None, "cost": 2 if "crown" in m else 1, "depth": 3 if tier == "thorough" else 2 if n in ("relu", "one_input") else 1})
                if n in ("relu", "tanh4") and (tier != "quick" or m in ("crown", "forward-hybrid")):
                    for s in nets.SLOPES[1:]:
                        out.append({"id": "%s/%s/%s" % (n, m, s), "net": n, "method": m, "slope": s, "cost": 1, "depth": 1 if tier == "quick" else 2})
    for m in ("crown", "forward-hybrid"):
        out.append({"id": "tf/relu/%s" % m, "net": "relu", "method": m, "slope": None, "depth": 1, "cost": 5, "backend": "tensorflow"})
    return out


def run_task(task, res):
    from decomon import check_adv_box, get_adv_box, get_adv_noise, get_range_box, get_range_noise
    from decomon.core import BallDomain
    from decomon.models import clone
    from decomon.wrapper import refine_box

    prog = NETS[task["net"]]
    d = prog[0][1]["dim"]
    kw = {"slope": task["slope"]} if task["slope"] else {}
    model = nets.build(prog)
    model.set_weights(nets.pattern_weights(model, 1))
    m = task["method"]
    dm = clone(model, method=m, **kw)
    n = int(dm.output_shape[-1][-1])
    full = clone(model, method=m, final_ibp=True, final_affine=True, **kw)
    ball = clone(model, method=m, final_ibp=True, final_affine=True, perturbation_domain=BallDomain(eps=0.5, p=2), **kw)
    bx = BX[:, :, :d]
    labs = np.array([0, 1, n - 1, 0])
    tgts = np.array([1, 0, 0, n - 1])
    oh = np.eye(n, dtype=int)
    F = {}

    def tup(o):
        return [np.asarray(x, np.float64) for x in (o if isinstance(o, (list, tuple)) else [o])]

    F["model"] = lambda i, bs, ns: tup(dm.predict_on_single_batch_np(bx[i]))
    F["full-model"] = lambda i, bs, ns: tup(full.predict_on_single_batch_np(bx[i]))
    F["ball-model"] = lambda i, bs, ns: tup(ball.predict_on_single_batch_np(bx[i][:, 0]))
    F["range_box"] = lambda i, bs, ns: tup(get_range_box(full, bx[i][:, 0], bx[i][:, 1], batch_size=bs, n_sub_boxes=ns))
    F["adv_box"] = lambda i, bs, ns: tup(get_adv_box(full, bx[i][:, 0], bx[i][:, 1], oh[labs[i]], batch_size=bs, n_sub_boxes=ns))
    F["adv_box_target"] = lambda i, bs, ns: tup(get_adv_box(dm, bx[i][:, 0], bx[i][:, 1], labs[i], oh[tgts[i]], batch_size=bs, n_sub_boxes=ns))
    F["check_adv_box"] = lambda i, bs, ns: tup(check_adv_box(full, bx[i][:, 0], bx[i][:, 1], oh[labs[i]], oh[tgts[i]], batch_size=bs))
    F["range_noise"] = lambda i, bs, ns: tup(get_range_noise(ball, bx[i][:, 0], eps=0.5, p=2, batch_size=bs))
    F["adv_noise"] = lambda i, bs, ns: tup(get_adv_noise(ball, bx[i][:, 0], oh[labs[i]], eps=0.5, p=2, target_labels=oh[tgts[i]], batch_size=bs))
    for name, kw2 in (("get_adv_box", True), ("get_upper_box", False), ("get_lower_box", False), ("check_adv_box", True)):
        import decomon.wrapper as dw

        f = getattr(dw, name)
        if kw2:
            F["refine_" + name] = lambda i, bs, ns, f=f: tup(refine_box(f, full, bx[i][:, 0], bx[i][:, 1], ns + 1, oh[labs[i]], oh[tgts[i]], batch_size=bs, random=False))
        else:
            F["refine_" + name] = lambda i, bs, ns, f=f: tup(refine_box(f, full, bx[i][:, 0], bx[i][:, 1], ns + 1, batch_size=bs, random=False))
    few = [(0, 2), (2, 0, 1), (0, 1, 2, 3)]
    sels = list(itertools.permutations(range(4), 2)) + [(1, 1), (2, 0, 1), (3, 2, 0), (0, 1, 2, 3)]
    if task["depth"] < 2:
        sels = few + [(1, 0), (3, 2, 0)]
    if task["depth"] >= 3:
        sels = [s for k in (1, 2) for s in itertools.product(range(4), repeat=k)]
        sels += list(itertools.permutations(range(4), 3)) + [(0, 0, 1), (2, 3, 2), (0, 1, 2, 3), (3, 2, 1, 0)]
        few = sels
    for name, f in F.items():
        batched = "model" not in name
        sub = batched and "noise" not in name and name != "check_adv_box"
        for ns in (1, 2, 4) if sub else (1,):
            single = [f([i], -1, ns) for i in range(4)]
            for s in sels if ns == 1 else few:
                bss = [-1]
                if batched:
                    bss = [-1, 1, 2, 3, 4] if s in few and ns == 1 else [-1, 3]
                for bs in bss:
                    out = f(list(s), bs, ns)
                    res.states += 1
                    res.transitions += len(s)
                    for t, o in enumerate(out):
                        bad = o.shape[0] != len(s)
                        if not bad:
                            for j, i in enumerate(s):
                                e = single[i][t][0]
                                if o[j].shape != e.shape or not np.allclose(o[j], e, rtol=1e-4, atol=1e-4 * (1 + np.abs(e).max() if e.size else 1)):
                                    bad = True
                                    break
                        if bad:
                            res.violation(name, "%s of the samples %s with batch_size=%d, n_sub_boxes=%d: result %d differs from the evaluation of each sample alone" % (name, s, bs, ns, t), {"got": o.tolist(), "alone": [single[i][t].tolist() for i in s]})
            res.outcome(np.concatenate([np.ravel(x) for x in single[0]]))
    res.traces += len(F)
    res.sample({"net": task["net"], "method": m, "functions": sorted(F)})

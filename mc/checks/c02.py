"""C02: converted networks over Lp balls."""
import itertools

from mc import nets

ALPHA = ["dense_relu", "dense_tanh", "softplus", "res_add", "res_max", "bn", "dense3d", "conv_same", "nested", "maxpool"]
BOUNDS = (
    "every layer word of length 1 over the 28-macro alphabet and every word of length 2 over a 10-macro alphabet x every method "
    "of the 7 which accepts it x p in {1,2,inf} x radius in {0,0.5,1.5} x 2 weight patterns; all centres on {-1,0,0.5}^2; 6 words with 1, 3 and 4 inputs and 1-3 outputs; points: "
    "the lattice {-1,-0.75,..,1}^2 of the unit ball, normalised onto the ball, scaled by the radius"
)
ASSUMPTIONS = ["values outside of the lattices are not explored", "float32 slack 2e-5 + 1e-5*magnitude"]
PS = ["1", "2", "inf"]
EPS = [0.0, 0.5, 1.5]


def tasks(tier):
    out = []
    words = [()] + [(m,) for m in nets.MACROS] + list(itertools.product(ALPHA, repeat=2))
    for i, w in enumerate(words):
        for j, p in enumerate(PS):
            # words of length 2: one radius per (word, p), words of length 1: all radii
            eps = EPS if len(w) < 2 or tier == "thorough" else [EPS[(i + j) % 3] or 0.5]
            ms = [m for m in nets.METHODS if nets.supported(w, m)]
            out.append({"id": "%s/%s" % ("+".join(w), p), "word": list(w), "p": p, "eps": eps, "methods": ms, "patterns": [0, 1] if len(w) < 2 or tier == "thorough" else [i % 2], "cost": len(w) + 1})
    for dim, o in ((1, 1), (1, 3), (3, 1), (3, 3), (4, 2)):
        for w in ((), ("dense_relu",), ("res_add",), ("conv",), ("dense_tanh",), ("bn",)):
            for p in PS:
                out.append({"id": "dim%d-%d/%s/%s" % (dim, o, "+".join(w), p), "word": list(w), "dim": dim, "out": o, "p": p, "eps": [0.5], "methods": [m for m in nets.METHODS if nets.supported(w, m)], "patterns": [0], "cost": 1})
    for w in ((), ("dense_relu",), ("res_max",), ("conv_same",)):
        for p in PS:
            out.append({"id": "tf/%s/%s" % ("+".join(w), p), "word": list(w), "p": p, "eps": [0.5], "methods": [m for m in ("crown", "forward-hybrid", "forward-ibp") if nets.supported(w, m)], "patterns": [1], "backend": "tensorflow", "cost": 6})
    return out


def ball_points(p, d=2, lat=(-1.0, -0.75, -0.5, -0.25, 0.0, 0.25, 0.5, 0.75, 1.0)):
    """extreme and inner points of the unit ball"""
    import numpy as np

    T = np.array(list(itertools.product(lat, repeat=d)))
    nrm = {"1": np.abs(T).sum(1), "2": np.sqrt((T**2).sum(1)), "inf": np.abs(T).max(1)}[p]
    return T / np.maximum(nrm, 1)[:, None]


def explore_ball(res, key, prog, method, p, eps, C, pattern, **kw):
    import numpy as np
    from decomon.core import BallDomain

    from mc import common, e2e

    model = nets.build(prog)
    model.set_weights(nets.pattern_weights(model, pattern))
    d = e2e.convert(model, method, perturbation_domain=BallDomain(eps=eps, p={"1": 1, "2": 2, "inf": np.inf}[p]), **kw)
    out = d.predict_on_single_batch_np(C)
    r = common.unpack(out, d.ibp, d.affine)
    T = ball_points(p, C.shape[1]) if C.shape[1] < 3 else ball_points(p, C.shape[1], (-1.0, -0.5, 0.0, 0.5, 1.0) if C.shape[1] < 4 else (-1.0, 0.0, 1.0))
    n = len(T)
    X = (C[:, None] + eps * T[None]).reshape(-1, C.shape[1]).astype(np.float32)
    F = nets.predict(model, X).reshape(len(X), -1)
    mask = np.repeat(np.eye(len(C), dtype=bool), n, 1)
    common.check_sound(res, key, r, mask, X, F, lambda b: {"centre": C[b].tolist(), "eps": eps, "p": p}, extra={"method": method, "pattern": pattern})
    res.states += len(C)
    res.transitions += int(mask.sum())
    res.traces += 1
    for k in r:
        res.outcome(r[k])
    res.sample({"program": prog, "method": method, "p": p, "eps": eps, "centre": C[0].tolist(), "bounds": {k: np.round(v[0].ravel()[:4], 5).tolist() for k, v in r.items()}})


def run_task(task, res):
    from mc import common

    dim = task.get("dim", 2)
    prog = nets.word_program(task["word"], dim=dim, out=task.get("out", 2))
    C = common.points([-1.0, 0.0, 0.5] if dim < 3 else [-1.0, 0.5], dim)
    for method in task["methods"]:
        for eps in task["eps"]:
            for k in task["patterns"]:
                explore_ball(res, "%s/eps%g/w%d" % (method, eps, k), prog, method, task["p"], eps, C, k, final_ibp=True, final_affine=True)
        explore_ball(res, "%s/default-outputs" % method, prog, method, task["p"], 0.75, C, 1 - task["patterns"][0])

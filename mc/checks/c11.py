"""C11: ranges and adversarial scores around a centre."""
import numpy as np

from mc import common, nets
from mc.checks.c02 import ball_points
from mc.checks.c10 import NETS, onehot, subsets

METHODS = ["keras"] + nets.METHODS
EPS = [0.0, 0.25, 1.0]
PS = {"1": 1, "2": 2, "inf": np.inf}
BOUNDS = (
    "10 networks x 9 ways of giving the model (keras, 7 methods, converted for another radius and norm) x p in {1,2,inf} x "
    "eps in {0, 0.25, 1} (2 of them per weight pattern) x 2 weight patterns x all centres on {-1,0,0.5}^d x source and target label sets x 2 ways of giving "
    "labels; a negative radius (the ball of the model); points: the normalised 9-lattice of the unit ball"
)
ASSUMPTIONS = ["only p in {1,2,inf} is accepted by these functions"]


def tasks(tier):
    out = []
    for n in NETS:
        for m in METHODS:
            word = {"merge": ("res_add",), "conv": ("conv",)}.get(n, ())
            if nets.supported(word, "crown" if m == "keras" else m) and (m != "keras" or n not in ("merge", "conv")):
                out.append({"id": "%s/%s" % (n, m), "net": n, "method": m, "patterns": [0, 1] if tier == "quick" else [0, 1, 2, 3], "tier": tier, "cost": 2})
    out.append({"id": "tf/relu/crown-forward-hybrid", "net": "relu", "method": "crown-forward-hybrid", "patterns": [1], "tier": "quick", "cost": 8, "backend": "tensorflow"})
    return out


def run_task(task, res):
    from decomon import get_adv_noise, get_lower_noise, get_range_noise, get_upper_noise
    from decomon.core import BallDomain
    from decomon.models import clone

    prog = NETS[task["net"]]
    d = prog[0][1]["dim"]
    cen = common.points([-1.0, 0.0, 0.5] if d < 3 else [-1.0, 0.5], d)
    m = task["method"]
    for k in task["patterns"]:
        model = nets.build(prog)
        model.set_weights(nets.pattern_weights(model, k))
        ref = model
        if task["net"] == "softmax":
            ref = nets.build([list(n) for n in prog[:-1]] + [["dense", {"u": 3}, prog[-1][2]]])
            ref.set_weights(model.get_weights())
        for pn, p in PS.items():
            T = ball_points(pn, d, (-1.0, -0.75, -0.5, -0.25, 0.0, 0.25, 0.5, 0.75, 1.0) if d < 3 else (-1.0, -0.5, 0.0, 0.5, 1.0))
            for ie, eps in enumerate(EPS):
                if task["tier"] == "quick" and (k + ie) % 3 == 2:
                    continue
                X = (cen[:, None] + eps * T[None]).reshape(-1, d).astype(np.float32)
                F = nets.predict(ref, X).reshape(len(X), -1)
                n = F.shape[1]
                mask = np.repeat(np.eye(len(cen), dtype=bool), len(T), 1)
                D = F.reshape(len(cen), len(T), n).astype(np.float64)
                worst = (D[:, :, :, None] - D[:, :, None, :]).max(1)
                tol = 1e-4 * (1 + np.abs(F).max())
                if m == "keras":
                    variants = [("keras", model, eps)]
                else:
                    same = clone(model, method=m, perturbation_domain=BallDomain(eps=eps, p=p))
                    other = clone(model, method=m, final_ibp=True, final_affine=True, perturbation_domain=BallDomain(eps=0.5, p=PS["1" if pn != "1" else "inf"]))
                    variants = [("own", same, -1.0), ("same", same, eps), ("other", other, eps)]
                for name, dm, e in variants:
                    key = "%s/p%s/eps%g/w%d" % (name, pn, eps, k)
                    u, l = get_range_noise(dm, cen, eps=e, p=p if e >= 0 else 2)
                    rep = lambda b: {"centre": cen[b].tolist(), "eps": eps, "p": pn}
                    common.check_sound(res, key + "/range", {"u": u.astype(float), "l": l.astype(float)}, mask, X, F, rep)
                    if name == "other":
                        u, l = get_upper_noise(dm, cen, eps=e, p=p), get_lower_noise(dm, cen, eps=e, p=p)
                        common.check_sound(res, key + "/single", {"u": u.astype(float), "l": l.astype(float)}, mask, X, F, rep)
                    res.transitions += int(mask.sum())
                    combos = [(S, Tt) for S in subsets(n) for Tt in [None] + subsets(n) if Tt is not None or len(S) < n]
                    step = (11 if name == "keras" or n > 3 else 4) if task["tier"] == "quick" else 1
                    for i, (S, Tt) in enumerate(combos[ie::step] if n > 2 else combos):
                        TT = Tt if Tt is not None else tuple(t for t in range(n) if t not in S)
                        s = np.tile(onehot(S, n), (len(cen), 1))
                        t = None if Tt is None else np.tile(onehot(Tt, n), (len(cen), 1))
                        if len(S) == 1 and i % 2 and (Tt is None or len(Tt) == 1):
                            s, t = int(S[0]), None if Tt is None else int(Tt[0])
                        sc = np.asarray(get_adv_noise(dm, cen, s, eps=e, p=p if e >= 0 else 2, target_labels=t))
                        w = worst[:, list(TT)][:, :, list(S)].max((1, 2))
                        res.states += len(cen)
                        res.transitions += len(cen) * len(T)
                        res.count("certified", int((sc < 0).sum()))
                        res.outcome(sc)
                        if sc.shape != (len(cen),) or not np.all(sc >= w - tol):
                            b = int(np.argmin(sc - w)) if sc.shape == w.shape else 0
                            res.violation(key + "/score", "score %.5f around %s (eps=%g, p=%s) sources %s targets %s is below the reached %.5f" % (sc.ravel()[b], cen[b].tolist(), eps, pn, S, TT, w[b]))
                res.traces += len(variants)
    res.sample({"net": task["net"], "method": m, "centres": len(cen), "ball points": len(T)})

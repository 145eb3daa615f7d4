"""C16: explicit-state search over sequences of domain changes of converted models."""
import itertools

import numpy as np

from mc import common, nets

D2 = ("dense", {"u": 2})
C = nets.chain
NETS = {
    "relu": nets.word_program(("relu", "dense_relu")),
    "tanh": nets.word_program(("dense_tanh", "relu")),
    "merge": nets.word_program(("res_add", "res_max")),
    "mul": nets.word_program(("res_mul", "relu")),
    "pool": nets.word_program(("maxpool", "relu")),
    "conv": nets.word_program(("conv", "bn")),
    "nested": nets.word_program(("nested", "sigmoid")),
    "dense3d": nets.word_program(("dense3d", "softsign")),
}
BALLS = [(0.0, 2), (0.25, np.inf), (1.0, 2), (1.0, 1), (0.5, np.inf), (2.0, np.inf)]
BOUNDS = (
    "8 networks x 7 methods x all histories of length 2 (3 in thorough) over 6 balls (p in 1, 2, inf; radius 0 included), starting "
    "from each of them, the domain being changed directly, through get_range_noise and through get_adv_noise; after every "
    "step the bounds are compared with all ball lattice points and with a fresh conversion; forbidden changes and models sharing a domain included"
)
ASSUMPTIONS = ["networks and points restricted to the stated lattices"]


def tasks(tier):
    out = []
    for n in NETS:
        for m in nets.METHODS:
            word = {"merge": ("res_add",), "mul": ("res_mul",), "pool": ("maxpool",), "conv": ("conv",), "dense3d": ("dense3d",)}.get(n, ())
            if nets.supported(word, m):
                out.append({"id": "%s/%s" % (n, m), "net": n, "method": m, "depth": 2 if tier == "quick" else 3, "cost": 3 if "crown" in m else 1})
    for m in ("crown", "forward-hybrid"):
        out.append({"id": "tf/relu/%s" % m, "net": "relu", "method": m, "depth": 2, "cost": 6, "backend": "tensorflow"})
    return out


def dname(d):
    return "eps%g-p%s" % d


def run_task(task, res):
    from decomon import get_adv_noise, get_range_noise
    from decomon.core import BallDomain, BoxDomain
    from decomon.models import clone

    method = task["method"]
    model = nets.build(NETS[task["net"]])
    model.set_weights(nets.pattern_weights(model, 1))
    cen = common.points([-1.0, 0.0, 0.75], 2)
    X = common.points(np.round(np.arange(-3, 3.01, 0.25), 3).tolist(), 2)
    F = nets.predict(model, X)
    labels = np.eye(2, dtype=int)[np.arange(len(cen)) % 2]
    fresh = {}
    for d in BALLS:
        c = clone(model, method=method, perturbation_domain=BallDomain(eps=d[0], p=d[1]))
        fresh[d] = (
            c.predict_on_single_batch_np(cen),
            common.in_ball(cen, X, d[0], d[1]),
        )
    ops = list(itertools.product(["set", "range", "adv"] if task.get("backend") != "tensorflow" else ["set"], BALLS))
    for first in BALLS:
        seqs = [(o,) for o in ops]
        if task["depth"] >= 3:
            seqs = list(itertools.product(ops, repeat=2))
        for seq in seqs:
            c = clone(model, method=method, perturbation_domain=BallDomain(eps=first[0], p=first[1]))
            domain = c.perturbation_domain
            twin = clone(model, method=method, perturbation_domain=domain) if seq == seqs[len(first) % len(seqs)] else None
            cur = first
            hist = [dname(first)]
            for kind, d in (("eval", first),) + seq + (("refused", None),):
                if kind == "set":
                    c.set_domain(BallDomain(eps=d[0], p=d[1]))
                elif kind == "range":
                    u, l = get_range_noise(c, cen, eps=d[0], p=d[1])
                    common.check_sound(res, "range", {"u": u.astype(float), "l": l.astype(float)}, fresh[d][1], X, F, lambda b: [cen[b].tolist(), hist, dname(d)])
                elif kind == "adv":
                    s = get_adv_noise(c, cen, labels, eps=d[0], p=d[1])
                    for b in range(len(cen)):
                        diff = F[:, 1 - b % 2] - F[:, b % 2]
                        worst = diff[fresh[d][1][b]].max()
                        if worst > s[b] + 1e-4 * (1 + abs(worst)):
                            res.violation("adv", "after %s, the score %.5f in the ball %s around %s is below a reached value %.5f" % (hist, s[b], dname(d), cen[b].tolist(), worst))
                elif kind == "refused":
                    try:
                        c.set_domain(BoxDomain())
                        res.violation("incompatible", "a box was accepted as the domain of a model converted for a ball")
                    except NotImplementedError:
                        pass
                    d = cur
                cur = d
                hist.append("%s:%s" % (kind, dname(d)))
                out = c.predict_on_single_batch_np(cen)
                r = common.unpack(out, c.ibp, c.affine)
                res.states += 1
                res.transitions += int(fresh[cur][1].sum())
                common.check_sound(res, "bounds", r, fresh[cur][1], X, F, lambda b: [cen[b].tolist(), hist])
                for a, b in zip(out, fresh[cur][0]):
                    if a.shape != b.shape or not np.allclose(a, b, rtol=1e-4, atol=1e-4):
                        res.violation("differs", "after %s the bounds differ from those of a fresh conversion" % hist, {"history": hist})
                        break
                if (getattr(c.perturbation_domain, "eps", None), getattr(c.perturbation_domain, "p", None)) != cur:
                    res.violation("domain", "after %s the domain of the model is not the one set" % hist)
            if twin is not None:
                for a, b in zip(twin.predict_on_single_batch_np(cen), fresh[first][0]):
                    if not np.allclose(a, b, rtol=1e-4, atol=1e-4):
                        res.violation("aliasing", "changing the domain of a model changed another model converted with the same domain object")
                        break
                if domain.eps != first[0] or domain.p != first[1]:
                    res.violation("aliasing-domain", "changing the domain of a model modified the domain object given by the user")
            res.traces += 1
            res.outcome(np.concatenate([np.ravel(t) for t in out]))
    res.sample({"net": task["net"], "method": method, "history": hist})

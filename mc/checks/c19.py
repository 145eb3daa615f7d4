"""C19: the bounds are exact where nothing has to be relaxed, and on single points."""
import itertools

import numpy as np

from mc import nets
from mc.checks.c20 import SHAPES, interpret, node_weights

LINEAR = ["dense", "dense_nobias", "dense_relu", "relu", "linear", "bn", "dropout", "flatten", "reshape_permute", "dense3d", "conv", "conv_same", "conv_stride", "nested", "nested_seq", "shared_layer", "res_add", "res_sub", "res_avg", "res_concat", "add3", "avg3", "concat3"]
PAIR = ["dense_relu", "relu", "bn", "nested", "res_add", "res_sub", "shared_layer", "conv_same", "conv_stride", "dense3d"]
BOUNDS = (
    "exactness: every layer word of length 1 over the 23 macros whose only non-linearity is relu and of length 2 over 10 of them (thorough: 23), 8 convolution, permutation and normalisation "
    "configurations, x every method with affine bounds x 5 slopes (words of length 1) x 2 weight patterns x all boxes with corners on a lattice and 3 Lp balls on which every relu is stable; "
    "single points: every word of length 1 over the 36-macro alphabet (softplus with forward-ibp only) and of length 2 over 8 macros x every method x box and 3 balls of radius 0; consistency of the constant and affine "
    "bounds returned together, and exactness of the upper bound of one unstable relu"
)
ASSUMPTIONS = ["crown and crown-forward-ibp propagate constant bounds only: exact for boxes, and with respect to the box enclosing a ball", "values outside of the lattices are not explored", "float32 slack 3e-5 + 3e-5*magnitude (1e-4 for single points)"]
ORACLE = "the exact extrema of the network: values at the vertices of the box, dual norm for balls, the networks being affine there as established from the pre-activations; keras' own value on single points"

PTS = ["relu", "dense_tanh", "sigmoid", "res_max", "res_mul", "maxpool", "nested", "conv_same"]
SHP = [s for s in SHAPES if not s.startswith("pool") and s not in ("dense-rank3", "exp-chain")]


# every number they produce is a small dyadic one, so that no rounding error occurs
DYADIC = ["dense_relu", "relu", "res_add", "res_sub", "dense3d"]

M = 1e-4  # margin: stable in spite of the rounding errors
# its lower relaxation is max(0, x): not exact anywhere by design
LOOSE = {"softplus"}


def meth(w):
    return [m for m in nets.METHODS if nets.supported(w, m)]


def tasks(tier):
    out = []
    for i, m in enumerate(LINEAR):
        out.append({"id": "exact/%s" % m, "words": [[m]], "methods": meth((m,)), "slopes": nets.SLOPES, "cost": 6})
        out.append({"id": "exact3/%s" % m, "words": [[m]], "dim": 3, "out": 3, "methods": meth((m,)), "slopes": nets.SLOPES[i % 5 : i % 5 + 1], "cost": 3})
    for a in LINEAR if tier == "thorough" else PAIR:
        out.append({"id": "exact/%s+*" % a, "words": [[a, b] for b in (LINEAR if tier == "thorough" else PAIR)], "methods": None, "slopes": ["volume-slope"], "cost": 20})
    for n in SHP:
        out.append({"id": "exact/%s" % n, "shape": n, "methods": nets.METHODS, "slopes": ["volume-slope"], "cost": 2})
    for m in DYADIC:
        out.append({"id": "zero/%s" % m, "words": [[m]] + [[m, b] for b in DYADIC], "margin": 0.0, "methods": None, "slopes": ["zero-lb", "one-lb"], "cost": 8})
    for m in nets.MACROS:
        out.append({"id": "point/%s" % m, "point": True, "words": [[m]], "methods": None, "slopes": nets.SLOPES, "cost": 5})
    for a in PTS:
        out.append({"id": "point/%s+*" % a, "point": True, "words": [[a, b] for b in PTS], "methods": None, "slopes": ["volume-slope"], "cost": 10})
    for m in ("dense_relu", "res_add", "conv_same"):
        out.append({"id": "tf/%s" % m, "words": [[m]], "methods": [x for x in meth((m,)) if x in ("crown", "crown-forward-hybrid", "forward-hybrid")], "slopes": ["volume-slope"], "backend": "tensorflow", "cost": 8})
    for t in out:
        t["tier"] = tier
    return out


def domains(dim):
    """name -> (domain object, inputs of the converted model, vertices of each domain or centre + radius)"""
    from decomon.core import BallDomain, BoxDomain

    from mc import common

    Z = common.boxes([-1.5, -0.5, 0.0, 1.0] if dim < 3 else [-1.0, 0.0, 1.0], dim)
    C = common.points([-1.0, -0.25, 0.5], dim)
    yield "box", BoxDomain(), Z, None
    for p in (1, 2, np.inf):
        yield "ball%s" % p, BallDomain(eps=0.25, p=p), C, p


def zero_bias(model, k):
    """dyadic weights, the biases of the even layers equal to zero: many relus end exactly at zero"""
    ws = nets.pattern_weights(model, k, values=(1.0, -1.0, 0.5, -0.5, 2.0, 0.0, -0.5, 1.0))
    return [w * (i % 4 > 1) if w.ndim == 1 else w for i, w in enumerate(ws)]


def vertices(Z):
    dim = Z.shape[-1]
    S = np.array(list(itertools.product([0, 1], repeat=dim)))
    return np.where(S[None] == 1, Z[:, 1][:, None], Z[:, 0][:, None])  # (N, 2^dim, dim)


def exact(task, res):
    from mc import common, e2e

    dim = task.get("dim", 2)
    progs = [(task["shape"], nets.chain(2, *SHAPES[task["shape"]]), None)] if "shape" in task else [("+".join(w), nets.word_program(w, dim=dim, out=task.get("out", 2)), w) for w in task["words"]]
    for name, prog, word in progs:
        M_ = task.get("margin", M)
        for k in (0, 1):
            nodes = []
            model = nets.build(prog, layers=nodes)
            model.set_weights(nets.pattern_weights(model, k) if M_ else zero_bias(model, k))
            methods = [m for m in (task["methods"] or meth(word)) if m != "forward-ibp"]
            for di, (dname, dom, Z, p) in enumerate(domains(dim)):
                if task["tier"] == "quick" and di > 0 and (di + k + len(name)) % 3:
                    continue  # the ball in rotation
                if not M_ and p is not None:
                    continue
                # domains on which every relu is stable, hence the network affine
                if p is None:
                    V = vertices(Z)
                else:
                    # the box around the ball: stability there is enough
                    V = vertices(np.stack([Z - 0.25, Z + 0.25], 1).astype(np.float32))
                n, q = V.shape[:2]

                pre = []
                interpret(prog, node_weights(prog, nodes), V.reshape(-1, dim), V.reshape(-1, dim), pre=pre)
                stable = np.ones(n, bool)
                for a, _ in pre:
                    a = a.reshape(n, q, -1)
                    stable &= np.all(np.all(a >= M_, 1) | np.all(a <= -M_, 1), -1)
                pre = []
                interpret(prog, node_weights(prog, nodes), V.min(1), V.max(1), pre=pre)
                istable = np.ones(n, bool)
                for l, u in pre:
                    istable &= np.all((l >= M_) | (u <= -M_), -1)
                X = V.astype(np.float32)
                F = nets.predict(model, X.reshape(-1, dim)).reshape(n, q, -1).astype(np.float64)
                if p is None:
                    hi, lo = F.max(1), F.min(1)
                else:
                    # affine there: gradient from the vertices
                    c = F.mean(1)
                    G = np.stack([(F[:, V[0, :, j] > Z[0, j]].mean(1) - F[:, V[0, :, j] < Z[0, j]].mean(1)) / 0.5 for j in range(dim)], 1)
                    dual = {1: np.abs(G).max(1), 2: np.sqrt((G**2).sum(1)), np.inf: np.abs(G).sum(1)}[p]
                    hi, lo = c + 0.25 * dual, c - 0.25 * dual
                for method in methods:
                    sel = istable if method == "crown-forward-ibp" else stable
                    if not sel.any():
                        res.count("no stable domain")
                        continue
                    for s in task["slopes"]:
                        if task["tier"] == "quick" and len(task["slopes"]) > 1 and p is not None and s != nets.SLOPES[(di + k) % 5]:
                            continue
                        d = e2e.convert(model, method, slope=s, perturbation_domain=dom, final_ibp=True, final_affine=True)
                        r = common.unpack(d.predict_on_single_batch_np(Z), True, True)
                        key = "%s/w%d/%s/%s/%s" % (name, k, dname, method, s)
                        tol = 3e-5 + 3e-5 * max(np.abs(F[sel]).max(), np.abs(r["wu"][sel]).max())
                        const = method in ("crown", "crown-forward-ibp")  # constant bounds only, from constant bounds on the inputs
                        checks = [("constant upper", r["u"], F.max(1) if const else hi), ("constant lower", r["l"], F.min(1) if const else lo)]
                        val = {w: np.einsum("npd,ndo->npo", X, r["w" + w]) + r["b" + w][:, None] for w in "ul"}
                        checks += [] if const else [("affine upper", val["u"], F), ("affine lower", val["l"], F)]
                        for what, got, want in checks:
                            err = np.where(sel, np.abs(got - want).reshape(n, -1).max(1), 0)
                            i = int(np.argmax(np.where(np.isfinite(err), err, np.inf)))
                            if not err[i] <= tol:
                                res.violation("%s:%s" % (key, what), "the %s bound differs by %.5g from the exact value on %s %s, where the network is affine" % (what, err[i], dname, Z[i].tolist()))
                        # the two kinds of bounds are consistent everywhere
                        if p is None:
                            for what, gap in (("upper", r["u"] - val["u"].max(1)), ("lower", val["l"].min(1) - r["l"])):
                                i = int(np.argmax(gap.max(1)))
                                t = 3e-5 + 3e-5 * max(np.abs(r["u"]).max(), np.abs(r["l"]).max(), np.abs(r["wu"]).max())
                                if not gap[i].max() <= t:
                                    res.violation("%s:consistency %s" % (key, what), "the constant %s bound is looser by %.5g than the extremum of the affine bound returned with it on %s" % (what, gap[i].max(), Z[i].tolist()))
                        res.states += int(sel.sum())
                        res.transitions += int(sel.sum()) * q
                        res.traces += 1
                        res.outcome(r["u"])
                        res.count("stable domains", int(sel.sum()))
        res.sample({"program": prog, "stable domains": int(stable.sum())})


def points(task, res):
    from decomon.core import BallDomain, BoxDomain

    from mc import common, e2e

    C = common.points([-1.5, -0.5, 0.0, 0.25, 1.0], 2)
    for w in task["words"]:
        prog = nets.word_program(w)
        for k in (0, 1):
            model = nets.build(prog)
            model.set_weights(nets.pattern_weights(model, k))
            F = nets.predict(model, C).reshape(len(C), -1).astype(np.float64)
            for method in meth(w):
                for si, s in enumerate(task["slopes"]):
                    if task["tier"] == "quick" and len(task["slopes"]) > 1 and si and k != si % 2:
                        continue
                    if not nets.supported(w, method, s):
                        continue
                    if LOOSE & set(w) and method != "forward-ibp":
                        continue
                    doms = [("box", BoxDomain())]
                    if s == "volume-slope" and (len(w) < 2 or task["tier"] == "thorough"):
                        doms += [("ball%s" % p, BallDomain(eps=0.0, p=p)) for p in (1, 2, np.inf)]
                    for dname, dom in doms:
                        Z = np.stack([C, C], 1) if dname == "box" else C
                        aff = "ibp" not in method or method.startswith("crown")
                        d = e2e.convert(model, method, slope=s, perturbation_domain=dom, final_ibp=True, final_affine=True)
                        r = common.unpack(d.predict_on_single_batch_np(Z), d.ibp, d.affine)
                        tol = 1e-4 + 1e-4 * np.abs(F).max()
                        vals = [("constant upper", r["u"]), ("constant lower", r["l"])]
                        if "wu" in r:
                            vals += [("affine " + n, np.einsum("nd,ndo->no", C, r["w" + n[0]]) + r["b" + n[0]]) for n in ("upper", "lower")]
                        for what, got in vals:
                            err = np.abs(got - F).max(1)
                            i = int(np.argmax(np.where(np.isfinite(err), err, np.inf)))
                            if not err[i] <= tol:
                                res.violation("%s/w%d/%s/%s/%s:%s" % ("+".join(w), k, dname, method, s, what), "the %s bound differs by %.5g from the value of the network on the single point %s" % (what, err[i], C[i].tolist()))
                        res.states += len(C)
                        res.transitions += len(C)
                        res.traces += 1
                        res.outcome(r["u"])
        res.sample({"program": prog, "point": C[0].tolist()})


def run_task(task, res):
    (points if task.get("point") else exact)(task, res)

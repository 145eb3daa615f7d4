"""C18: every assignment of the fine-tuning parameters of a converted model, on a lattice."""
import itertools

import numpy as np

from mc import common, nets

W = nets.word_program
NETS = {
    "relu": W(("relu",)),
    "sigmoid": W(("sigmoid",)),
    "tanh": W(("tanh",)),
    "softsign": W(("softsign",)),
    "softplus": W(("softplus",)),
    "relu_relu": W(("dense_relu", "dense_relu")),
    "relu_tanh": W(("dense_relu", "dense_tanh")),
    "sigmoid_relu": W(("sigmoid", "dense_relu")),
    "softplus_relu": W(("softplus", "dense_relu")),
    "dense3d": W(("dense3d",)),
    "conv": W(("conv",)),
    "merge": W(("res_add", "relu")),
    "max": W(("res_max", "relu")),
    "pool": W(("maxpool", "sigmoid")),
    "exponential": W(("exponential",)),
    "nested": W(("nested", "softsign")),
}
WORDS = {"merge": ("res_add",), "max": ("res_max",), "pool": ("maxpool",), "exponential": ("exponential",)}
SLOPED = ("relu", "softplus", "relu_relu", "softplus_relu", "conv")
DOMAINS = {"box": None, "l2": (0.75, 2), "l1": (1.0, 1), "linf": (0.5, np.inf)}
BOUNDS = (
    "16 networks x 7 methods x 5 slopes x boxes and l1, l2, linf balls x every assignment of the fine-tuning parameters over {0, 0.5, 1} "
    "when there are at most 4 of them (5 in the thorough tier), else every assignment of one of 4 (6) patterns to each parameter "
    "tensor; all boxes or centres of a lattice x all lattice points; extrema over the intersection of a ball and a box x every "
    "assignment of their parameters; the constraints on every lattice value; get_upper_box_tuning and get_lower_box_tuning x networks x "
    "methods x sub-boxes x batch sizes"
)
ASSUMPTIONS = ["parameters, weights, domains and points restricted to the stated lattices"]
ORACLE = "keras' forward pass of the original network on a point lattice; a lattice of the intersection of the ball and the box for the extrema."


def tasks(tier):
    out = []
    for n in NETS:
        for me in nets.METHODS:
            if me == "forward-ibp":
                continue
            for sl in nets.SLOPES if n in SLOPED else ["volume-slope"]:
                word = WORDS.get(n, ("softplus",) if "softplus" in n else ())
                if not nets.supported(word, me, sl):
                    continue
                for dom in DOMAINS:
                    if dom in ("l1", "linf") and sl not in ("volume-slope",):
                        continue
                    if tier == "quick" and dom == "box" and sl in ("zero-lb", "one-lb") and n in ("conv", "softplus_relu"):
                        continue
                    if tier == "quick" and dom != "box" and (me in ("crown", "crown-forward-ibp") and dom != "l2" or sl not in ("volume-slope",)):
                        continue
                    out.append({"id": "net/%s/%s/%s/%s" % (n, me, sl, dom), "kind": "net", "net": n, "method": me, "slope": sl, "dom": dom, "tier": tier, "cost": 3 if n in ("conv", "dense3d", "nested") else 1})
    for p in (1, 2, np.inf):
        out.append({"id": "ball/%s" % p, "kind": "ball", "p": p, "tier": tier, "cost": 3})
    out.append({"id": "clip", "kind": "clip", "cost": 1})
    for n in ("relu_tanh", "relu_relu", "softplus_relu"):
        if tier == "quick" and n == "relu_relu":
            continue
        for me in nets.METHODS:
            out.append({"id": "tuning/%s/%s" % (n, me), "kind": "tuning", "net": n, "method": me, "tier": tier, "cost": 8})
    return out


def run_task(task, res):
    globals()["run_" + task["kind"]](task, res)


def assignments(sizes, tier):
    """every assignment of values to parameter tensors of these sizes"""
    total = sum(sizes)
    if total <= (4 if tier == "quick" else 5):
        for a in itertools.product((0.0, 0.5, 1.0), repeat=total):
            out, i = [], 0
            for s in sizes:
                out.append(np.array(a[i : i + s]))
                i += s
            yield out
        return
    pats = [lambda n: np.zeros(n), lambda n: np.ones(n), lambda n: np.arange(n) % 2 * 1.0, lambda n: (np.arange(n) + 1) % 2 * 0.75 + 0.125]
    if tier != "quick":
        pats += [lambda n: np.full(n, 0.5), lambda n: np.arange(n) % 3 / 2.0]
    if len(pats) ** len(sizes) > (100 if tier == "quick" else 1300):
        # many tensors: all of them equal, or a single or two of them different from the others
        for base in pats:
            yield [base(s) for s in sizes]
            for j, k in itertools.combinations(range(len(sizes)), 2) if tier != "quick" else zip(range(len(sizes) - 1), range(1, len(sizes))):
                for p in pats:
                    if p is not base:
                        yield [(p if t in (j, k) else base)(s) for t, s in enumerate(sizes)]
                        if k == j + 1:
                            yield [(p if t == j else base)(s) for t, s in enumerate(sizes)]
        return
    for ps in itertools.product(pats, repeat=len(sizes)):
        yield [p(s) for p, s in zip(ps, sizes)]


def run_net(task, res):
    from decomon.core import BallDomain
    from decomon.models import clone

    dom = DOMAINS[task["dom"]]
    X = common.points(np.round(np.arange(-2, 2.01, 0.5 if dom is None else 0.25), 3).tolist(), 2)
    if dom is None:
        z = common.boxes([-1.0, 0.0, 1.0], 2)[1::4] * 1.5
        mask = common.inside(z, X)
        rep = common.box_repr(z)
    else:
        z = common.points([-1.0, 0.25, 1.0], 2)[::2]
        mask = common.in_ball(z, X, dom[0], dom[1])
        rep = lambda b: [z[b].tolist(), task["dom"]]
    for k in (0, 2):
        model = nets.build(NETS[task["net"]])
        model.set_weights(nets.pattern_weights(model, k))
        F = nets.predict(model, X).reshape(len(X), -1)
        kw = {} if dom is None else {"perturbation_domain": BallDomain(eps=dom[0], p=dom[1])}
        d = clone(model, method=task["method"], slope=task["slope"], finetune=True, **kw)
        known = {id(v) for v in model.variables}
        alphas = [v for v in d.variables if id(v) not in known]
        sizes = [int(np.prod(v.shape)) for v in alphas]
        base = d.predict_on_single_batch_np(z)
        if k == 0:
            plain = clone(model, method=task["method"], slope=task["slope"], **kw).predict_on_single_batch_np(z)
            for a, b in zip(base, plain):
                if not np.allclose(a, b, rtol=1e-4, atol=1e-5):
                    res.violation("initial", "the initial fine-tuning parameters do not give the bounds of the conversion without fine-tuning")
                    break
        if not alphas:
            res.count("no parameter")
        used = False
        n = 0
        for a in assignments(sizes, task["tier"]):
            if task["tier"] == "quick" and k and n % 3:  # half the pattern on the second weights
                n += 1
                continue
            n += 1
            for v, w in zip(alphas, a):
                v.assign(np.asarray(w, np.float32).reshape(tuple(v.shape)))
            out = d.predict_on_single_batch_np(z)
            r = common.unpack(out, d.ibp, d.affine)
            common.check_sound(res, "w%d" % k, r, mask, X, F, rep, extra={"parameters": [np.asarray(w).tolist() for w in a]})
            used = used or any(not np.allclose(p, q) for p, q in zip(out, base))
            res.states += 1
            res.transitions += int(mask.sum())
        res.traces += n
        res.count("effective" if used else "without effect")
        res.outcome(out[0])
    res.sample({"net": task["net"], "method": task["method"], "slope": task["slope"], "parameters": sizes, "assignments": n})


def run_ball(task, res):
    import keras.ops as K

    from decomon.core import BallDomain

    p = task["p"]
    vals = [-1.0, -0.5, 0.0, 0.5, 1.0]
    pts = common.points(np.round(np.arange(-2, 2.01, 0.125), 4).tolist(), 2).astype(np.float64)
    ws = np.array(list(itertools.product([-1.0, 0.0, 0.5, 1.5], repeat=2)))  # (16, 2)
    w = np.stack([ws, -ws[:, ::-1]], -1).astype(np.float32)  # (16, 2, 2)
    b = np.array([[0.25, -1.0]] * len(w), np.float32)
    alphas = list(itertools.product((0.0, 0.5, 1.0), repeat=2))
    for eps in (0.0, 0.5, 1.0):
        dom = BallDomain(eps=eps, p=p)
        for c in common.points([-0.5, 0.0, 1.0], 2):
            in_b = common.in_ball(c[None], pts, eps, p)[0]
            for lo, up in itertools.product([(-1.0, -1.0), (-0.5, 0.0), (-2.0, -0.25)], [(1.0, 1.0), (0.25, 0.5), (2.0, 0.125)]):
                for keys in (("upper",), ("lower",), ("upper", "lower"), ()):
                    m = in_b.copy()
                    if "upper" in keys:
                        m &= np.all(pts <= np.array(up) + 1e-9, -1)
                    if "lower" in keys:
                        m &= np.all(pts >= np.array(lo) - 1e-9, -1)
                    if not m.any():
                        continue
                    val = np.einsum("pd,bdo->bpo", pts[m], w.astype(np.float64)) + b[:, None]
                    for a in alphas if (p != np.inf and keys) else alphas[4:5]:
                        al = np.stack([a, a[::-1]], -1).astype(np.float32)
                        box = {k: np.array(up if k == "upper" else lo, np.float32) for k in keys}
                        x = np.repeat(c[None], len(w), 0)
                        kwu = dict(box, finetune_upper=K.convert_to_tensor(al)) if keys else {}
                        kwl = dict(box, finetune_lower=K.convert_to_tensor(al)) if keys else {}
                        U = common.to_np(dom.get_upper(K.convert_to_tensor(x), K.convert_to_tensor(w), K.convert_to_tensor(b), **kwu))
                        L = common.to_np(dom.get_lower(K.convert_to_tensor(x), K.convert_to_tensor(w), K.convert_to_tensor(b), **kwl))
                        e1 = float((val.max(1) - U).max())
                        e2 = float((L - val.min(1)).max())
                        if e1 > 1e-4:
                            res.violation("upper/%s" % "+".join(keys), "the upper bound over the ball %s around %s and the box %s, with parameters %s, is below a reached value by %.5f" % (eps, c.tolist(), box, a, e1))
                        if e2 > 1e-4:
                            res.violation("lower/%s" % "+".join(keys), "the lower bound over the ball %s around %s and the box %s, with parameters %s, is above a reached value by %.5f" % (eps, c.tolist(), box, a, e2))
                        res.states += len(w)
                        res.transitions += int(m.sum()) * len(w)
                    res.outcome(U)
    res.traces += 1


def run_clip(task, res):
    import keras.ops as K

    from decomon.layers.utils import ClipAlpha, NonNeg, NonPos

    vals = [-1e6, -2.0, -1e-3, 0.0, 1e-3, 0.25, 0.5, 1.0, 1.001, 3.0, 1e6]
    for a in itertools.product(vals, repeat=2):
        w = K.convert_to_tensor(np.array(a, np.float32))
        for name, c, ref in (("ClipAlpha", ClipAlpha(), np.clip(a, 0, 1)), ("NonPos", NonPos(), np.minimum(a, 0)), ("NonNeg", NonNeg(), np.maximum(a, 0))):
            got = common.to_np(c(w))
            if not np.allclose(got, ref, rtol=1e-6, atol=0):
                res.violation(name, "%s maps %s to %s" % (name, a, got.tolist()))
            res.states += 1
            res.transitions += 2
            res.outcome(got)
    res.traces += 1


def run_tuning(task, res):
    from decomon import get_lower_box, get_lower_box_tuning, get_model, get_upper_box, get_upper_box_tuning
    from decomon.models import clone

    X = common.points(np.round(np.arange(-2, 2.01, 0.25), 3).tolist(), 2)
    bx = np.concatenate([common.boxes([-1.0, 0.0, 1.0], 2)[1::5][:6], np.array([[[-0.5, -2.0], [1.5, 1.0]]], np.float32)])
    mask = common.inside(bx, X)
    model = nets.build(NETS[task["net"]])
    model.set_weights(nets.pattern_weights(model, 1))
    F = nets.predict(model, X)
    hi = np.array([F[m].max(0) for m in mask])
    lo = np.array([F[m].min(0) for m in mask])
    for ft in ({"finetune": True}, {"finetune_backward": True}) if not nets.is_forward(task["method"]) and task["tier"] != "quick" else ({"finetune": True},):
        d = clone(model, method=task["method"], **ft)
        concat = get_model(d)
        w0 = [common.to_np(v.value).copy() for v in d.variables]
        known = {id(v) for v in model.variables}
        has_alpha = any(id(v) not in known for v in d.variables)
        if not has_alpha:
            res.count("no parameter")
            continue
        for n_sub, bs in ((1, -1), (1, 1), (1, 2), (1, 7), (2, -1), (4, 3)):
            key = "%s/sub%d/batch%d" % ("+".join(ft), n_sub, bs)
            for up in (True, False):
                fn, ref = (get_upper_box_tuning, get_upper_box) if up else (get_lower_box_tuning, get_lower_box)
                base = ref(d, bx[:, 0], bx[:, 1], n_sub_boxes=n_sub)
                got = fn(d, concat, bx[:, 0], bx[:, 1], batch_size=bs, n_sub_boxes=n_sub, lr=0.2, epochs=3)
                name = "%s/%s" % (key, "upper" if up else "lower")
                if got.shape != hi.shape:
                    res.violation(name + ":shape", "the tuned bounds have the shape %s instead of %s" % (got.shape, hi.shape))
                    continue
                s = 1 if up else -1
                e = s * ((hi if up else lo) - got)
                if e.max() > 1e-4:
                    b = int(np.argmax(e.max(1)))
                    res.violation(name + ":unsound", "the tuned bound of the box %s is off by %.5f" % (bx[b].tolist(), e.max()))
                if (s * (got - base)).max() > 1e-4:
                    res.violation(name + ":worse", "tuning worsens the bounds by %.5f" % (s * (got - base)).max())
                if (s * (base - got)).max() > 1e-4:
                    res.count("improved")
                for v, w in zip(d.variables, w0):
                    if not np.array_equal(common.to_np(v.value), w):
                        res.violation(name + ":changed", "the tuning leaves the variable %s changed" % v.path)
                        v.assign(w)
                res.states += len(bx)
                res.transitions += int(mask.sum())
                res.traces += 1
                res.outcome(got)
    res.sample({"net": task["net"], "method": task["method"]})

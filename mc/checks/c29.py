"""C29: the bounds follow the floating point precision of keras (floatx), and are sound up to the rounding of that precision only."""
import itertools

import numpy as np

from mc import common, nets

UNIT = {"float16": 2.0**-10, "float32": 2.0**-23, "float64": 2.0**-52}
# rounding slack, in units in the last place of the largest magnitude met
ULPS = {"float16": 64, "float32": 256, "float64": 4096}
FLOATX = ("float64", "float16")
BASE = [-1.5, -0.5, 0.0, 1.0]
WRAP = [("dense_relu",), ("dense_tanh",), ("bn", "relu"), ("conv",), ("conv_same",), ("softplus",), ("maxpool",)]
LAYERS = {
    "maxpool-2x2": ((2, 2, 1), {"pool_size": (2, 2)}),
    "maxpool-1x2": ((1, 3, 2), {"pool_size": (1, 2), "strides": (1, 1)}),
    "maxpool-3x2": ((3, 2, 1), {"pool_size": (3, 2)}),
    "maxpool-many": ((3, 3, 1), {"pool_size": (2, 2), "strides": (1, 1)}),
}
R = ["act", {"f": "relu"}]


def _conv(reshape, conv, *post):
    return nets.chain(2, ("dense", {"u": int(np.prod(reshape))}), ("reshape", {"t": list(reshape)}), ("conv", conv), *post, ("flatten", {}), ("dense", {"u": 2}))


EXTRA = {
    "conv-strides": _conv((3, 3, 1), {"f": 2, "k": [2, 3], "s": [2, 1], "p": "same"}, R),
    "conv-first": _conv((2, 3, 2), {"f": 1, "k": [2, 2], "df": "channels_first"}, R),
    "conv-dilated": _conv((3, 3, 1), {"f": 2, "k": [2, 2], "dil": 2}),
    "bn-axis": nets.chain(2, ("dense", {"u": 4}), ("reshape", {"t": [2, 2]}), ("bn", {"axis": 1}), R, ("flatten", {}), ("dense", {"u": 2})),
}
BOUNDS = (
    "floatx in {float16, float64} (float32: the other checks) x every layer word of length 1 over the 36-macro alphabet and 6 words of "
    "length 2 x every method accepting it x {box, l1, l2 or linf ball} x slopes (3 words) x fine-tuning, weights which are no dyadic numbers; all boxes (centres) "
    "of the lattice {-1.5,-.5,0,1}^2 and, for float64, the same boxes shrunk 1000 times and moved away from 0; points of the refined "
    "lattice; get_range_box, get_upper_box, get_lower_box, get_adv_box, get_range_noise on the moved boxes in float64 (split or not); "
    "4 convolution and normalisation networks, and the precise forward max pooling, in float64"
)
ASSUMPTIONS = ["slack: 4096 (float64) or 64 (float16) units in the last place of the largest magnitude met", "torch backend for the sweep, tensorflow for a few words"]


def weights(model, k, fx):
    out = []
    for w, v in zip(nets.pattern_weights(model, k), model.weights):
        w = w.astype("float64")
        out.append((np.abs(w) + 0.1 if "variance" in (v.path if hasattr(v, "path") else v.name) else w * 1.1 / 3 + 0.013).astype(fx))
    return out


def forward(model, X):
    return common.to_np(model(X, training=False)).reshape(len(X), -1).astype(np.float64)


def tol_of(fx, *arrays):
    m = 1.0
    for a in arrays:
        if np.size(a):
            m = max(m, float(np.abs(a).max()))
    return ULPS[fx] * UNIT[fx] * m


def lattice(fx, moved):
    b, x = common.boxes(BASE, 2).astype(np.float64), common.points(common.refine(BASE, 4), 2).astype(np.float64)
    mask = common.inside(b, x, 1e-5)
    b, x = b.astype(fx), x.astype(fx)
    if moved:
        # corners and points on the same multiples of 2**-12: no rounding when they are computed
        b, x = 100 + b / 1024, 100 + x / 1024
    return b, x, mask


def tasks(tier):
    out = []
    words = [(m,) for m in nets.MACROS] + [("dense_relu", "dense_tanh"), ("conv", "relu"), ("res_add", "relu"), ("nested", "bn"), ("dense3d", "sigmoid"), ("conv_same", "conv_same")]
    if tier == "thorough":
        core = ["dense_relu", "sigmoid", "bn", "res_add", "res_max", "conv", "nested", "dense3d"]
        words += [w for w in itertools.product(core, repeat=2) if w not in words]
    for w in words:
        for fx in FLOATX:
            out.append({"id": "net/%s/%s" % ("+".join(w), fx), "word": list(w), "floatx": fx, "tier": tier, "cost": 6})
    for w in WRAP:
        out.append({"id": "wrapper/%s" % "+".join(w), "wrapper": list(w), "floatx": "float64", "cost": 8})
    for n in EXTRA:
        out.append({"id": "extra/%s" % n, "word": [], "extra": n, "floatx": "float64", "tier": tier, "cost": 6})
    for n in LAYERS:
        out.append({"id": "layer/%s" % n, "layer": n, "floatx": "float64", "cost": 2})
    for w in (("dense_relu",), ("conv",), ("sigmoid",)):
        out.append({"id": "tf/%s" % "+".join(w), "word": list(w), "floatx": "float64", "backend": "tensorflow", "tier": "tf", "cost": 25})
    return out


def set_floatx(fx):
    import keras

    keras.config.set_floatx(fx)
    keras.mixed_precision.set_dtype_policy(fx)  # (keras keeps the policy of its first layer)


def run_task(task, res):
    import keras

    old = keras.config.floatx()
    set_floatx(task["floatx"])
    try:
        if "wrapper" in task:
            wrapper(task, res)
        elif "layer" in task:
            layer(task, res)
        else:
            net(task, res)
    finally:
        set_floatx(old)


def net(task, res):
    from decomon.core import BallDomain
    from decomon.models import clone

    fx, w = task["floatx"], tuple(task["word"])
    quick = task["tier"] != "thorough"
    jobs = []
    for i, m in enumerate(nets.METHODS):
        if not nets.supported(w, m):
            continue
        if task["tier"] == "tf":
            if m in ("crown", "forward-hybrid"):
                jobs.append((m, None, {}))
            continue
        jobs += [(m, None, {}), (m, None, {"moved": True})] if fx == "float64" else [(m, None, {})]
        for p in (1, 2, np.inf) if not quick else ((1, 2, np.inf)[i % 3],):
            jobs.append((m, p, {}))
        if w in (("dense_relu",), ("conv",), ("res_add",)) or not quick:
            jobs += [(m, None, {"slope": s}) for s in nets.SLOPES[1:] if nets.supported(w, m, s)]
        if fx == "float64" or w == ("dense_relu",):
            jobs.append((m, None, {"finetune": True}))
    for k in (0, 1):
        model = nets.build(EXTRA[task["extra"]] if "extra" in task else nets.word_program(w))
        model.set_weights(weights(model, k, fx))
        for method, p, kw in jobs:
            if kw.get("finetune") and k:
                continue
            kw = dict(kw)
            bx, X, mask = lattice(fx, kw.pop("moved", False))
            F = forward(model, X)
            if fx == "float16":  # the reference is computed with more precision than the bounds
                F = reference(model, w, X)
            if p is not None:
                kw["perturbation_domain"] = BallDomain(eps=0.5, p=p)
                dom = X[:: 1 if p == 1 else 3]
                # points strictly inside the ball by a dyadic margin, or exactly on its border
                mask = common.in_ball(dom.astype(np.float64), X.astype(np.float64), 0.5, p, 0.0)
            else:
                dom = bx
            d = clone(model, method=method, final_ibp=True, final_affine=True, **kw)
            out = d.predict_on_single_batch_np(dom)
            opts = ["%s=%s" % (a, b) for a, b in kw.items() if a != "perturbation_domain"] + (["moved"] if dom.max() > 50 else [])
            key = "%s/p=%s/%s/w%d" % (method, p, ",".join(opts), k)
            wrong = sorted({str(o.dtype) for o in out} - {fx})
            if wrong:
                res.violation(key + ":dtype", "bounds of a %s network are returned as %s" % (fx, wrong))
            r = common.unpack(out, d.ibp, d.affine)
            t = tol_of(fx, F, *r.values())
            if "wu" in r:
                t = max(t, tol_of(fx, np.abs(X).max() * np.abs(r["wu"]).max(), np.abs(X).max() * np.abs(r["wl"]).max()))
            common.check_sound(res, key, r, mask, X, F, lambda b: dom[b].tolist(), tol=t)
            res.states += len(dom)
            res.transitions += int(mask.sum())
            res.traces += 1
            res.outcome(r["u"] if "u" in r else r["bu"])
    res.sample({"word": list(w), "floatx": fx, "methods": len(jobs)})


def reference(model, w, X):
    """values of the float16 network computed in float64"""
    set_floatx("float64")
    try:
        ref = nets.build(nets.word_program(w))
        ref.set_weights([np.asarray(v, np.float64) for v in model.get_weights()])
        return forward(ref, X.astype("float64"))
    finally:
        set_floatx("float16")


def wrapper(task, res):
    from decomon import get_adv_box, get_lower_box, get_range_box, get_range_noise, get_upper_box
    from decomon.core import BallDomain
    from decomon.models import clone

    w, fx = tuple(task["wrapper"]), task["floatx"]
    bx, X, mask = lattice(fx, True)
    for k in (0, 1):
        model = nets.build(nets.word_program(w))
        model.set_weights(weights(model, k, fx))
        F = forward(model, X)
        hi, lo = np.stack([F[m].max(0) for m in mask]), np.stack([F[m].min(0) for m in mask])
        gap = np.stack([(F[m][:, 1] - F[m][:, 0]).max() for m in mask])
        for method in ["keras"] + nets.METHODS:
            if not nets.supported(w, "crown" if method == "keras" else method):
                continue
            d = model if method == "keras" else clone(model, method=method)
            for n in (1, 4):
                u, l = get_range_box(d, bx[:, 0], bx[:, 1], n_sub_boxes=n)
                s = np.asarray(get_adv_box(d, bx[:, 0], bx[:, 1], 0, 1, n_sub_boxes=n))
                got = [("range upper", hi - u, u), ("range lower", l - lo, l), ("adversarial score", gap - s, s)]
                uu, ll = np.asarray(get_upper_box(d, bx[:, 0], bx[:, 1], n_sub_boxes=n)), np.asarray(get_lower_box(d, bx[:, 0], bx[:, 1], n_sub_boxes=n))
                got += [("upper", hi - uu, uu), ("lower", ll - lo, ll)]
                for name, err, val in got:
                    if str(val.dtype) != fx:
                        res.violation("%s/%d/w%d:%s-dtype" % (method, n, k, name), "%s of a %s network is returned as %s" % (name, fx, val.dtype))
                    if not float(err.max()) <= 100 * tol_of(fx, F):
                        b = int(np.argmax(err.reshape(len(bx), -1).max(1)))
                        res.violation("%s/%d/w%d:%s" % (method, n, k, name), "%s excludes a reached value by %.3g on the box %s" % (name, err.max(), bx[b].tolist()), {"box": bx[b].tolist()})
                    res.outcome(val)
                res.states += len(bx)
                res.transitions += int(mask.sum()) * len(got)
            C = X[::7]
            db = model if method == "keras" else clone(model, method=method, perturbation_domain=BallDomain(eps=1.0, p=2))
            for p in (1, 2, np.inf):
                eps = 0.5 / 1024
                m = common.in_ball(C * 1024, X * 1024, 0.5, p, 0.0)
                u, l = get_range_noise(db, C, eps, p)
                err = max(max((F[a].max(0) - u[i]).max(), (l[i] - F[a].min(0)).max()) for i, a in enumerate(m))
                if not err <= 100 * tol_of(fx, F):
                    res.violation("%s/w%d:noise-%s" % (method, k, p), "get_range_noise excludes a reached value by %.3g" % err)
                res.states += len(C)
                res.transitions += int(m.sum())
            res.traces += 1
    res.sample({"word": list(w), "boxes": len(bx)})


def layer(task, res):
    """precise forward max pooling (the conversion of networks uses the fast one): its upper hull comes from a linear solver"""
    import keras
    from decomon.core import BoxDomain
    from decomon.layers.convert import to_decomon
    from keras.layers import Input

    shape, cfg = LAYERS[task["layer"]]
    n = int(np.prod(shape))
    lay = keras.layers.MaxPooling2D(**cfg)
    m = keras.Model((x := Input(shape)), lay(x))
    lo = np.array([[((3 * i * (s + 1) + 5 * s + i * i) % 11) / 7.0 - 0.7 for i in range(n)] for s in range(12)])
    hi = lo + np.array([[((i * (s + 2) + 2 * s) % 5) / 3.0 for i in range(n)] for s in range(12)])
    sel = np.array([[(i >> j) & 1 for j in range(n)] for i in range(2**n)] if n <= 6 else [[((i * (j + 3) + j * j + i * i) >> 1) & 1 for j in range(n)] for i in range(64)])
    pts = lo[:, None] * (1 - sel[None]) + hi[:, None] * sel[None]
    F = forward(m, pts.reshape((-1,) + shape)).reshape(len(lo), len(sel), -1)
    for mode in ("ibp", "affine", "hybrid"):
        d = to_decomon(lay, n, perturbation_domain=BoxDomain(), ibp=mode != "affine", affine=mode != "ibp", fast=False)
        u, l = hi.reshape((-1,) + shape), lo.reshape((-1,) + shape)
        w = np.tile(np.eye(n).reshape((1, n) + shape), (len(lo), 1) + (1,) * len(shape))
        z = np.stack([lo, hi], 1)
        b = np.zeros_like(u)
        ins = {"ibp": [u, l], "affine": [z, w, b, w, b], "hybrid": [z, u, w, b, l, w, b]}[mode]
        out = common.to_np(d([keras.ops.convert_to_tensor(t.astype("float64")) for t in ins]))
        r = common.unpack(out, mode != "affine", mode != "ibp")
        t = tol_of("float64", F, *r.values()) * 10
        for s, cu, wu, bu in ((1, "u", "wu", "bu"), (-1, "l", "wl", "bl")):
            if cu in r and not (s * (F - r[cu][:, None])).max() <= t:
                res.violation("%s:%s" % (mode, cu), "constant bound excludes a pooled value by %.3g" % (s * (F - r[cu][:, None])).max())
            if wu in r:
                e = (s * (F - np.einsum("bpn,bno->bpo", pts, r[wu]) - r[bu][:, None])).max()
                if not e <= t:
                    res.violation("%s:%s" % (mode, wu), "affine bound excludes a pooled value by %.3g" % e)
        res.states += len(lo)
        res.transitions += F[..., 0].size
        res.outcome(out[-1])
    res.traces += 1

"""C23: bounds of linear combinations of the outputs."""
import itertools

import numpy as np

from mc import nets

ALPHA = ["dense_relu", "dense_tanh", "relu", "bn", "res_add", "res_max", "conv_same", "dense3d", "nested"]
BOUNDS = (
    "every layer word of length 1 over the 36-macro alphabet (ending with a dense layer of 3 outputs, or with the macro itself) and every word of length 2 over 9 macros, "
    "5 forms of final softmax, convolutional ends x every method accepting it x 4 final modes (in rotation for the words in the quick tier) x box and 3 balls (words in the quick tier: box and a ball, or one of them); coefficients: identity, permutation, "
    "differences with an output, mixed signs with 1, n and n+1 combinations, zeros, all of them in one batch with every domain of a "
    "lattice, given as one tensor or as 4 tensors (different coefficients and offsets for the upper and the lower bounds); "
    "adversarial scores of models converted that way for every source label"
)
ASSUMPTIONS = ["values outside of the lattices are not explored", "float32 slack 2e-5 + 1e-5*magnitude"]
ORACLE = "keras' forward pass on a point lattice, combined with the coefficients in float64"


def coefficients(o):
    """list of lists of (o, k) matrices, grouped by k"""
    lat = np.array([1.0, -1.0, 0.5, 0.0, -0.75, 2.0, -0.5])
    mix = lambda k, t: np.take(lat, (np.arange(o * k) * 3 + t * 5 + (np.arange(o * k) ** 2) // 2) % 7).reshape(o, k)
    g = [[mix(1, 0), mix(1, 1), np.zeros((o, 1))]]
    sq = [np.eye(o), np.eye(o)[::-1], mix(o, 2), -np.eye(o)]
    sq += [np.eye(o) - np.eye(o)[s][:, None] for s in range(min(o, 3))]
    g += [sq] if o > 1 else []
    g += [[mix(o + 1, 3), mix(o + 1, 4)]]
    return g


FINALS = [(None, None), (True, False), (False, True), (True, True)]
DOMS = ["box", "1", "2", "inf"]


def tasks(tier):
    out = []
    words = [()] + [(m,) for m in nets.MACROS] + list(itertools.product(ALPHA, repeat=2))
    for i, w in enumerate(words):
        ms = [m for m in nets.METHODS if nets.supported(w, m)]
        if len(w) < 2:
            for j, dom in enumerate(DOMS):
                if tier == "quick" and j not in (0, 1 + i % 3):
                    continue
                out.append({"id": "%s/%s" % ("+".join(w), dom), "word": list(w), "tail": bool((i + j) % 3), "dom": dom, "methods": ms, "finals": True if tier == "thorough" else (i + j) % 4, "patterns": [0, 1] if tier == "thorough" else [(i + j) % 2], "cost": 3})
        else:
            for dom in DOMS if tier == "thorough" else (DOMS[i % 4],):
                out.append({"id": "%s/%s" % ("+".join(w), dom), "word": list(w), "tail": True, "dom": dom, "methods": ms, "finals": 3 if tier == "quick" else True, "patterns": [0, 1] if tier == "thorough" else [i % 2], "cost": 2})
    for s in ("embedded", "activation", "layer", "nested", "nested_seq"):
        out.append({"id": "softmax-%s" % s, "softmax": s, "dom": "box", "methods": nets.METHODS, "finals": True, "patterns": [0, 1] if tier == "thorough" else [0], "cost": 3})
    for i, ops in enumerate(([("conv", {"f": 1, "k": [2, 1]})], [("conv", {"f": 2, "k": [2, 2], "p": "same"}), ("act", {"f": "relu"})], [("maxpool", {"k": [2, 1]})], [("permute", {"d": [2, 1, 3]})])):
        p = nets.chain(2, ("dense", {"u": 4}), ("reshape", {"t": [2, 2, 1]}), *ops)
        out.append({"id": "end%d" % i, "prog": p, "dom": "box", "methods": nets.METHODS, "finals": True, "patterns": [0, 1] if tier == "thorough" else [0], "cost": 3})
    for w in ((), ("dense_relu",), ("conv_same",)):
        out.append({"id": "tf/%s" % "+".join(w), "word": list(w), "tail": True, "dom": "box", "methods": ["crown", "forward-hybrid"], "finals": 3, "patterns": [1], "backend": "tensorflow", "cost": 5})
    for i, w in enumerate(((), ("dense_relu",), ("dense_tanh",), ("res_add",), ("bn",))):
        out.append({"id": "score/%s" % "+".join(w), "score": True, "word": list(w), "tail": True, "dom": "box", "methods": [m for m in nets.METHODS if nets.supported(w, m)], "cost": 1})
    for t in out:
        t["tier"] = tier
    return out


def run_task(task, res):
    import keras
    from decomon import get_adv_box
    from decomon.core import BallDomain, BoxDomain
    from decomon.models import clone
    from keras.layers import Input

    from mc import common
    from mc.checks.c01 import SOFTMAX
    from mc.checks.c02 import ball_points

    logits = None
    if "softmax" in task:
        prog, logits = SOFTMAX[task["softmax"]]
    elif "prog" in task:
        prog = task["prog"]
    else:
        prog = nets.word_program(task["word"], tail=task["tail"], out=3)
    eps = 0.5
    if task["dom"] == "box":
        Z = common.boxes([-1.0, 0.0, 1.0], 2)[::4]
        pts = np.array(list(itertools.product([0.0, 0.25, 0.5, 1.0], repeat=2)))
        X = Z[:, None, 0] + pts[None] * (Z[:, 1] - Z[:, 0])[:, None]
    else:
        Z = common.points([-1.0, 0.0, 0.5], 2)
        X = Z[:, None] + eps * ball_points(task["dom"], 2, (-1.0, -0.5, 0.0, 0.5, 1.0))[None]
    X = X.astype(np.float32)
    nd, P = X.shape[:2]
    for k in task.get("patterns", [0, 1]):
        model = nets.build(prog)
        model.set_weights(nets.pattern_weights(model, k))
        ref = model
        if logits:
            ref = nets.build(logits)
            ref.set_weights(model.get_weights())
        F = nets.predict(ref, X.reshape(-1, 2)).reshape(nd, P, -1).astype(np.float64)
        o = F.shape[-1]
        for method in task["methods"]:
            dom = BoxDomain() if task["dom"] == "box" else BallDomain(eps=eps, p={"1": 1, "2": 2, "inf": np.inf}[task["dom"]])
            if task.get("score"):
                d = clone(model, method=method, back_bounds=[Input((o, o))])
                for s in range(o):
                    lab = np.full((nd,), s)
                    got = np.asarray(get_adv_box(d, Z[:, 0], Z[:, 1], source_labels=lab))
                    want = np.delete(F - F[..., s : s + 1], s, -1).max((1, 2))
                    err = want - got.ravel()
                    if got.shape != (nd,) or not np.all(err <= 2e-5 + 1e-5 * np.abs(F).max()):
                        res.violation("%s/w%d/score%d" % (method, k, s), "the adversarial score of source %d is below the attained difference by %.4g" % (s, err.max()), {"box": Z[int(err.argmax())].tolist()})
                    res.states += nd
                    res.transitions += nd * P
                    res.traces += 1
                    res.outcome(got)
                continue
            for fi, fa in FINALS if task["finals"] is True else [FINALS[task["finals"]]]:
                if method in ("forward-ibp", "crown-forward-ibp") and fa is False:
                    continue  # same as the default
                kw = {} if fi is None else {"final_ibp": fi, "final_affine": fa}
                for four in (False, True):
                    for ci, Cs in enumerate(coefficients(o)):
                        c = Cs[0].shape[1]
                        if four and ci < 2 and task["tier"] == "quick":
                            continue
                        bb = [Input((o, c))] if not four else [Input((o, c)), Input((c,)), Input((o, c)), Input((c,))]
                        key = "%s/w%d/%s-%s/%d tensors/%d combinations" % (method, k, fi, fa, len(bb), c)
                        try:
                            d = clone(model, method=method, perturbation_domain=dom, back_bounds=bb, **kw)
                            n = len(Cs)
                            A = np.repeat(np.stack(Cs), nd, 0).astype(np.float32)  # (n*nd, o, c)
                            args = [np.concatenate([Z] * n), A]
                            up = lo = A.astype(np.float64)
                            bu = bl = np.zeros((n * nd, c))
                            if four:
                                lo = np.roll(A, 1, 1).astype(np.float64)
                                bu = np.take([0.5, -1.0, 0.25], np.arange(n * nd * c) % 3).reshape(n * nd, c)
                                bl = -2 * bu - 0.25
                                args = [args[0], A, bu.astype(np.float32), lo.astype(np.float32), bl.astype(np.float32)]
                            out = d.predict_on_single_batch_np(args)
                        except Exception:
                            if nets.is_forward(method) or "prog" not in task:
                                raise
                            res.count("refused")
                            continue
                        r = common.unpack(out, d.ibp, d.affine)
                        Fn = np.concatenate([F] * n)
                        Xn = np.concatenate([X] * n)
                        V = {"u": np.einsum("bpo,boc->bpc", Fn, up) + bu[:, None], "l": np.einsum("bpo,boc->bpc", Fn, lo) + bl[:, None]}
                        tol = 2e-5 + 1e-5 * max([np.abs(a).max() for a in list(V.values()) + list(r.values())])
                        for name, sign, kind in (("u", 1, "upper"), ("l", -1, "lower")):
                            for what in ("constant", "affine"):
                                if what == "constant" and name in r:
                                    b = r[name][:, None]
                                elif what == "affine" and "w" + name in r:
                                    b = np.einsum("bpd,bdc->bpc", Xn, r["w" + name]) + r["b" + name][:, None]
                                else:
                                    continue
                                if b.shape[0] != n * nd or b.shape[2] != c:
                                    res.violation(key + ":shape", "%s bounds of %s combinations for %d samples, expected %s for %d" % (what, b.shape[2], b.shape[0], c, n * nd))
                                    continue
                                err = sign * (V[name] - b)
                                i = np.unravel_index(int(np.argmax(np.where(np.isfinite(err), err, np.inf))), err.shape)
                                if not err[i] <= tol:
                                    res.violation("%s:%s %s" % (key, what, kind), "%s %s bound of a combination excludes a reachable value by %.5g: domain %s, x=%s, coefficients %s" % (what, kind, err[i], args[0][i[0]].tolist(), Xn[i[0], i[1]].tolist(), (up if name == "u" else lo)[i[0], :, i[2]].tolist()))
                        res.states += n * nd
                        res.transitions += n * nd * P
                        res.traces += 1
                        for v in r.values():
                            res.outcome(v)
            res.sample({"prog": prog, "method": method, "domain": task["dom"], "outputs": o})

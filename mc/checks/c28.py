"""C28: explicit-state exploration of the updates of the original weights, on live converted models."""
import itertools
import os
import tempfile

import numpy as np

from mc import common, nets

C = nets.chain
D2, RELU = ("dense", {"u": 2}), ("act", {"f": "relu"})
DR = ("dense", {"u": 2, "act": "relu"})
W = nets.word_program
NETS = {
    "dense": (C(2, DR, ("dense", {"u": 3, "act": "tanh"}), D2), False),
    "seq": (C(2, DR, ("bn", {}), D2), True),
    "nobias": (C(2, ("dense", {"u": 3, "bias": False, "act": "relu"}), ("dense", {"u": 2, "bias": False})), False),
    "bn": (C(2, D2, ("bn", {}), RELU, ("bn", {"center": False}), ("bn", {"scale": False}), D2), False),
    "bn_only": (C(2, ("bn", {})), False),
    "conv": (W(("conv",)), False),
    "conv_act": (W(("conv_same", "bn")), False),
    "nested": (C(2, ("sub", {"prog": C(2, DR, ("sub", {"prog": C(2, D2, ("bn", {}), RELU), "seq": True}))}), DR), False),
    "merge": (W(("res_add", "bn")), False),
    "max": (W(("max2",)), False),
    "shared": (W(("shared_layer",)), False),
    "dense3d": (W(("dense3d",)), False),
    "softmax": (C(2, DR, ("dense", {"u": 3, "act": "softmax"})), False),
}
OPS = ["set1", "set2", "assign", "layer", "load", "fit"]
METHODS = nets.METHODS
BOUNDS = (
    "13 networks (dense, sequential, batch normalised, convolutional, nested, merging, shared layers, softmax ended) x 7 methods x "
    "every sequence of 2 updates (3 in the thorough tier) over 6 kinds of update (set_weights with 2 assignments, assignment of single "
    "variables, set_weights of a layer, load_weights, a training step), walked along a de Bruijn cycle on the same live converted "
    "models; after every update: bounds sound for the current network (all boxes of a lattice x all points) and equal to those of a "
    "fresh conversion; plus unshared forward conversions, whose bounds must stay those of the conversion"
)
ASSUMPTIONS = [
    "histories longer than the de Bruijn window are walked but not enumerated exhaustively",
    "every method a network supports is converted once, before the updates",
]
ORACLE = "keras' forward pass of the current network on a point lattice, and a fresh conversion of the current network."


def de_bruijn(k, n):
    """sequence over range(k) in which every word of length n appears as a window"""
    a, seq = [0] * (k * n), []

    def db(t, p):
        if t > n:
            if n % p == 0:
                seq.extend(a[1 : p + 1])
        else:
            a[t] = a[t - p]
            db(t + 1, p)
            for j in range(a[t - p] + 1, k):
                a[t] = j
                db(t + 1, t)

    db(1, 1)
    return seq + seq[: n - 1]


def tasks(tier):
    out = []
    for n in NETS:
        for g, ms in (("backward", METHODS[:4]), ("forward", METHODS[4:])):
            if g == "backward" and n in ("merge", "max", "shared"):
                continue  # these graphs are refused by the backward methods
            out.append({"id": "%s/%s" % (n, g), "net": n, "methods": ms, "depth": 2 if tier == "quick" else 3, "cost": 5})
    for n in ("bn", "conv"):
        out.append({"id": "tf/" + n, "net": n, "depth": 1, "methods": ["forward-hybrid", "crown"], "cost": 8, "backend": "tensorflow"})
    return out


def weighted(m):
    for l in m.layers:
        if hasattr(l, "layers"):
            yield from weighted(l)
        elif l.weights:
            yield l


def apply(op, model, path):
    ls = list(weighted(model))
    if op in ("set1", "set2"):
        model.set_weights(nets.pattern_weights(model, 1 if op == "set1" else 4))
    elif op == "assign":
        for l in ls[::2]:
            for v in l.weights:
                v.assign(v * 0.5 + 0.5 if "variance" in v.name else v * -1.5 + 0.25)
    elif op == "layer":
        ls[-1].set_weights([np.asarray(w)[::-1].copy() + 0.5 for w in ls[-1].get_weights()])
    elif op == "load":
        model.load_weights(path)
    elif op == "fit":
        X = common.points([-1.0, 0.5, 1.0], 2)
        y = nets.predict(model, X)
        model.fit(X, np.cos(3 * y) / 2, batch_size=3, epochs=1, shuffle=False, verbose=0)


def run_task(task, res):
    import keras

    prog, seq = NETS[task["net"]]
    methods = task.get("methods", METHODS)
    bx = common.boxes([-1.0, 0.0, 1.0], 2)[::5]
    X = common.points([-1.0, -0.5, 0.0, 0.5, 1.0], 2)
    mask = common.inside(bx, X)
    model = nets.build(prog, seq=seq)
    soft = task["net"] == "softmax"
    model.set_weights(nets.pattern_weights(model, 3))
    logits = model
    if soft:  # same variables, without the softmax
        last = model.layers[-1]

        def logits_of(X):
            h = keras.Model(model.inputs, model.layers[-2].output)
            return nets.predict(h, X) @ np.asarray(last.get_weights()[0]) + np.asarray(last.get_weights()[1])

    with tempfile.TemporaryDirectory() as tmp:
        path = os.path.join(tmp, "w.weights.h5")
        model.save_weights(path)
        model.compile(optimizer=keras.optimizers.SGD(0.02), loss="mse")
        live = {}
        for me in methods:
            try:
                d = convert(model, me)
                d.predict_on_single_batch_np(bx)
                live[me] = d
            except Exception as e:
                res.count("refused:" + me)
        if not live:
            res.violation("refused", "no method converts %s" % task["net"])
        copies = {}
        if task["depth"] > 1 and "forward-ibp" in methods:
            for me in ("forward-ibp", "forward-hybrid"):
                c = convert(model, me, shared=False)
                copies[me] = (c, bounds(c, bx))
        history, prev = [], None
        for i in [None] + de_bruijn(len(OPS), task["depth"]):
            if i is not None:
                history.append(OPS[i])
                apply(OPS[i], model, path)
            F = (logits_of(X) if soft else nets.predict(model, X)).reshape(len(X), -1)
            if not np.all(np.isfinite(F)) or np.abs(F).max() > 1e4:
                apply("set1", model, path)
                history.append("set1")
                F = (logits_of(X) if soft else nets.predict(model, X)).reshape(len(X), -1)
            h = "+".join(history[-3:]) or "start"
            for me, d in live.items():
                out = d.predict_on_single_batch_np(bx)
                r = common.unpack(out, d.ibp, d.affine)
                common.check_sound(res, "%s/after %s" % (me, h), r, mask, X, F, common.box_repr(bx), extra={"method": me, "history": list(history)})
                f = convert(model, me)
                want = bounds(f, bx)
                got = out if isinstance(out, list) else [out]
                err = max(float(np.max(np.abs(np.asarray(a) - np.asarray(b)) / (1 + np.abs(np.asarray(b))))) for a, b in zip(got, want))
                if len(got) != len(want) or not err <= 1e-4:
                    res.violation("%s/after %s:fresh" % (me, h), "after %s the bounds of the %s model are off by %.4g from those of a fresh conversion" % (h, me, err), {"history": list(history)})
                res.transitions += int(mask.sum())
                res.traces += 1
                res.outcome(got[-1])
            for me, (c, ref) in copies.items():
                if any(not np.array_equal(a, b) for a, b in zip(bounds(c, bx), ref)):
                    res.violation("%s-unshared/after %s" % (me, h), "after %s the bounds of an unshared conversion changed" % h, {"history": list(history)})
                res.traces += 1
            res.states += 1
            if prev is not None and OPS[i] != "load" and np.array_equal(prev, F) and history[-2:-1] != history[-1:]:
                res.count("update without effect")
            prev = F
        res.sample({"net": task["net"], "history": history[:12], "methods": sorted(live)})


def convert(model, method, **kw):
    from decomon.models import clone

    return clone(model, method=method, **kw)


def bounds(d, bx):
    out = d.predict_on_single_batch_np(bx)
    return out if isinstance(out, list) else [out]

"""C14: explicit-state search over sequences of conversions and evaluations; the original network and the
models converted earlier are compared with their initial snapshot after every step."""
import itertools
import json

import numpy as np

from mc import common, nets
from mc.checks.c26 import MULTI

D2, RELU = ("dense", {"u": 2}), ("act", {"f": "relu"})
DR = ("dense", {"u": 2, "act": "relu"})
C = nets.chain
NETS = {
    "dense": (C(2, DR, D2), None, False),
    "seq": (C(2, DR, ("dense", {"u": 2, "act": "tanh"}), D2), None, True),
    "softmax": (C(2, DR, ("dense", {"u": 3, "act": "softmax"})), None, False),
    "softmax_act": (C(2, DR, D2, ("act", {"f": "softmax"})), None, False),
    "softmax_seq": (C(2, DR, D2, ("act", {"f": "softmax"})), None, True),
    "softmax_layer": (C(2, DR, D2, ("softmax_layer",)), None, False),
    "nested": (C(2, ("sub", {"prog": C(2, DR, ("sub", {"prog": C(2, D2, RELU)}))}), DR), None, False),
    "nested_softmax": (C(2, DR, ("sub", {"prog": C(2, ("dense", {"u": 2, "act": "softmax"}))})), None, False),
    "merge": (nets.word_program(("res_add", "bn")), None, False),
    "shared": ([["in", {"dim": 2}, []], ["dense", {"u": 2, "act": "relu"}, [0]], ["again", {"of": 1}, [1]], ["merge", {"m": "Subtract"}, [1, 2]]], None, False),
    "conv": (C(2, ("dense", {"u": 4}), ("reshape", {"t": [2, 2, 1]}), ("conv", {"f": 2, "k": [2, 1], "act": "relu"}), ("maxpool", {"k": [1, 2]}), ("flatten",), ("dropout", {}), D2), None, False),
    "multi": MULTI["two"] + (False,),
    "multi_nested": MULTI["nested_two"] + (False,),
    "bn": (C(2, D2, ("bn", {}), RELU, ("bn", {}), D2), None, False),
}
OPS = ["crown", "crown-forward-hybrid", "forward-ibp", "forward-hybrid", "finetune", "evaluate", "preprocess", "wrapper"]
BIG = OPS + ["crown-forward-ibp", "crown-forward-affine", "forward-affine", "split", "ball", "freeze"]
BOUNDS = (
    "14 networks (sequential, nested, softmax ended, merging, shared, convolutional, multi-output) x all operation sequences of "
    "length 2 over 14 operations and of length 3 (on 2 of them) over 8 operations (conversions with every method, ball domain, fine-tuning, "
    "freezing, preprocessing, evaluations, wrapper calls); full snapshot of the network and of the bounds of every earlier "
    "converted model compared after every operation"
)
ASSUMPTIONS = ["a conversion refused with an exception is an operation too: it must leave everything intact as well"]


def tasks(tier):
    out = []
    for n in NETS:
        for a in BIG:
            out.append({"id": "%s/%s" % (n, a), "net": n, "first": a, "depth": 3 if tier == "quick" else 4, "cost": 4 if a in OPS else 1, "tier": tier})
    for n in ("softmax_act", "multi"):
        out.append({"id": "tf/%s" % n, "net": n, "first": "crown", "depth": 2, "cost": 8, "tier": tier, "backend": "tensorflow"})
    return out


def sequences(task):
    a, d = task["first"], task["depth"]
    if d == 2:
        return [(a, b) for b in OPS]
    if task["tier"] == "quick":
        if task["net"] not in ("softmax_act", "nested"):
            return [(a, b) for b in BIG]
        s = [(a,) + r for r in itertools.product(OPS, repeat=2)] if a in OPS else []
        return s + [(a, b) for b in BIG if a not in OPS or b not in OPS]
    return [(a,) + r for r in itertools.product(OPS if a in OPS else BIG, repeat=d - 1 if a in OPS else 2)]


def walk(m):
    for l in m.layers:
        yield l
        if hasattr(l, "layers"):
            yield from walk(l)


def snapshot(model, X):
    s = {}
    s["predictions"] = [np.array(y) for y in np_list(nets.predict(model, X))]
    s["weights"] = [np.array(w) for w in model.get_weights()]
    s["variables"] = [id(v) for v in model.weights]
    s["trainable variables"] = [id(v) for v in model.trainable_variables]
    s["trainable flags"] = [bool(v.trainable) for v in model.weights] + [bool(l.trainable) for l in walk(model)]
    s["layers"] = [(id(l), l.name, type(l).__name__) for l in walk(model)]
    s["config"] = json.dumps(model.get_config(), sort_keys=True, default=repr)
    s["inputs/outputs"] = [id(t) for t in list(model.inputs) + list(model.outputs)]
    return s


def np_list(y):
    return y if isinstance(y, list) else [y]


def diff(a, b):
    for k in a:
        if k in ("predictions", "weights"):
            if len(a[k]) != len(b[k]) or any(not np.array_equal(x, y) for x, y in zip(a[k], b[k])):
                return k
        elif a[k] != b[k]:
            return k
    return None


def run_task(task, res):
    from decomon import get_lower_box, get_upper_box
    from decomon.core import BallDomain
    from decomon.models import clone
    from decomon.models.convert import preprocess_keras_model, split_activations_in_keras_model

    prog, outs, seq = NETS[task["net"]]
    X = common.points([-1.0, 0.5], 2)
    bx = common.boxes([-1.0, 0.0, 1.5], 2)[::4]
    for s in sequences(task):
        model = nets.build(prog, seq=seq, outputs=outs)
        model.set_weights(nets.pattern_weights(model, 1))
        ref = snapshot(model, X)
        conv = []  # (model, inputs, bounds)
        for i, op in enumerate(s):
            try:
                d = None
                if op == "evaluate":
                    for c, inp, _ in conv:
                        c.predict_on_single_batch_np(inp)
                elif op == "wrapper":
                    for f in (get_upper_box, get_lower_box):
                        f(model, bx[:, 0], bx[:, 1])
                elif op == "preprocess":
                    preprocess_keras_model(model)
                elif op == "split":
                    split_activations_in_keras_model(model)
                elif op == "freeze":
                    for c, _, _ in conv:
                        c.freeze_weights()
                elif op == "ball":
                    d = clone(model, method="crown-forward-hybrid", perturbation_domain=BallDomain(eps=0.5, p=2))
                elif op == "finetune":
                    d = clone(model, method="forward-hybrid", finetune=True)
                else:
                    d = clone(model, method=op)
                if d is not None:
                    inp = X if op == "ball" else bx
                    conv.append((d, inp, d.predict_on_single_batch_np(inp)))
            except Exception as e:
                res.count("refused:" + type(e).__name__)
            h = "+".join(s[: i + 1])
            k = diff(ref, snapshot(model, X))
            if k:
                res.violation("original:" + k, "after %s the %s of the original network %s changed" % (h, k, task["net"]), {"sequence": s[: i + 1]})
                break
            bad = False
            for c, inp, old in conv:
                new = c.predict_on_single_batch_np(inp)
                res.transitions += 1
                if len(new) != len(old) or any(not np.array_equal(a, b) for a, b in zip(np_list(old), np_list(new))):
                    res.violation("earlier-bounds", "after %s the bounds of an earlier converted model changed" % h, {"sequence": s[: i + 1]})
                    bad = True
            res.states += 1
            res.transitions += 1
            if bad:
                break
        res.traces += 1
        res.count("conversions", len(conv))
        for c, _, o in conv[:1]:
            res.outcome(np.concatenate([np.ravel(t) for t in np_list(o)]))
    res.sample({"net": task["net"], "sequence": list(s), "converted": len(conv)})

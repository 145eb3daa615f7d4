"""C15: explicit-state exploration of freezing / resetting / training operations on live converted models."""
import numpy as np

from mc import common, nets
from mc.checks.c28 import de_bruijn

C = nets.chain
D2, RELU = ("dense", {"u": 2}), ("act", {"f": "relu"})
W = nets.word_program
NETS = {
    "dense": (W(("dense_relu", "sigmoid")), False),
    "nobias": (W(("dense_nobias", "relu")), False),
    "bn": (W(("bn", "dense_relu")), False),
    "seq": (C(2, D2, RELU, ("bn", {"scale": False}), ("dense", {"u": 2, "act": "tanh"}), D2), True),
    "conv": (W(("conv", "softsign")), False),
    "nested": (W(("nested", "tanh")), False),
    "merge": (W(("res_add", "relu")), False),
    "shared": (W(("shared_layer", "relu")), False),
    "linear": (W(("linear",)), False),
}
REFUSED_BACKWARD = ("merge", "shared")
OPS = ["freeze_weights", "unfreeze_weights", "freeze_alpha", "unfreeze_alpha", "reset_finetuning", "move", "train"]
FINETUNE = {"none": {}, "all": {"finetune": True}, "fwd": {"finetune_forward": True}, "bwd": {"finetune_backward": True}}
BOUNDS = (
    "9 networks (dense, without bias, batch normalised, sequential, convolutional, nested, merging, shared layers, linear) x 7 methods x "
    "fine-tuning of nothing, everything, the forward or the backward parameters x every sequence of 3 operations (4 in the thorough tier) "
    "among freezing / unfreezing the weights / the fine-tuning parameters, resetting, moving the parameters inside [0, 1] and one "
    "training step on a robust loss, walked along a de Bruijn cycle on the same live model; after every operation the trainable and non "
    "trainable variables are compared with a reference state machine, every variable with its value before the operation, and the "
    "bounds with their value before (freezing), with the initial ones (resetting) and with the network on all lattice points"
)
ASSUMPTIONS = [
    "histories longer than the de Bruijn window are walked but not enumerated exhaustively",
    "operations are applied to whole models, as the wrappers do",
]
ORACLE = "a reference state machine with two flags (weights frozen, parameters frozen) and the values recorded at conversion."


def tasks(tier):
    out = []
    for n in NETS:
        for me in nets.METHODS:
            crown = not nets.is_forward(me)
            if crown and n in REFUSED_BACKWARD:
                continue
            for ft in FINETUNE:
                if ft in ("fwd", "bwd") and (n not in ("dense", "conv") or not crown):
                    continue
                depth = (3 if n in ("dense", "bn") and ft == "all" else 2) if tier == "quick" else (4 if n in ("dense", "bn") and ft == "all" else 3)
                out.append({"id": "%s/%s/%s" % (n, me, ft), "net": n, "method": me, "ft": ft, "depth": depth, "cost": 7**depth * (2 if crown else 1) / 50.0})
    out.append({"id": "tf/dense/crown/all", "net": "dense", "method": "crown", "ft": "all", "depth": 1, "cost": 10, "backend": "tensorflow"})
    out.append({"id": "tf/bn/forward-hybrid/all", "net": "bn", "method": "forward-hybrid", "ft": "all", "depth": 1, "cost": 10, "backend": "tensorflow"})
    return out


def values(vs):
    return [common.to_np(v.value).copy() for v in vs]


def ids(vs):
    return sorted(id(v) for v in vs)


def run_task(task, res):
    import keras
    from decomon import get_model, get_upper_loss
    from decomon.models import clone

    prog, seq = NETS[task["net"]]
    me = task["method"]
    bx = common.boxes([-1.0, 0.0, 1.0], 2)[::4]
    X = common.points([-1.0, -0.5, 0.0, 0.5, 1.0], 2)
    mask = common.inside(bx, X)
    model = nets.build(prog, seq=seq)
    model.set_weights(nets.pattern_weights(model, 1))
    d = clone(model, method=me, **FINETUNE[task["ft"]])
    twin = clone(model, method=me, **FINETUNE[task["ft"]])
    concat = get_model(d)
    weights = list(model.trainable_variables)
    moving = list(model.non_trainable_variables)
    all_vars = list(d.variables)
    known = {id(v) for v in weights + moving}
    alphas = [v for v in all_vars if id(v) not in known]
    start_w, start_a = values(weights + moving), values(alphas)
    twin_start = (ids(twin.trainable_variables), ids(twin.non_trainable_variables))
    if not set(ids(weights + moving)) <= set(ids(all_vars)):
        res.violation("lost", "some variables of the network are missing in the converted model")
    want_alphas = task["ft"] != "none" and task["net"] != "linear" and (me != "forward-ibp") and not (task["ft"] == "fwd" and me in ("crown", "crown-forward-ibp"))
    if bool(alphas) != want_alphas:
        res.violation("alphas", "the conversion has %d fine-tuning parameters" % len(alphas))
    if any(a.size and (a.min() < 0 or a.max() > 1) for a in start_a):
        res.violation("initial", "the initial fine-tuning parameters are outside [0, 1]")
    opt_loss = get_upper_loss(d)

    def bounds():
        out = d.predict_on_single_batch_np(bx)
        return out if isinstance(out, list) else [out]

    first = bounds()
    zero = np.zeros((len(bx), 2), np.float32)
    wf = af = moved = trained = False
    before = first
    history = []
    step = 0
    for i in [None] + de_bruijn(len(OPS), task["depth"]):
        op = OPS[i] if i is not None else "start"
        history.append(op)
        h = "after " + "+".join(history[-4:])
        old_w, old_a = values(weights + moving), values(alphas)
        step += 1
        if op == "freeze_weights":
            d.freeze_weights()
            wf = True
        elif op == "unfreeze_weights":
            d.unfreeze_weights()
            wf = False
        elif op == "freeze_alpha":
            d.freeze_alpha()
            af = True
        elif op == "unfreeze_alpha":
            d.unfreeze_alpha()
            af = False
        elif op == "reset_finetuning":
            d.reset_finetuning()
            moved = False
        elif op == "move":
            for j, v in enumerate(alphas):
                n = int(np.prod(v.shape))
                v.assign(np.array([(0.0, 0.25, 0.75, 1.0, 0.5)[(step + 3 * j + t) % 5] for t in range(n)], np.float32).reshape(tuple(v.shape)))
            moved = True
        elif op == "train":
            if (weights and not wf) or (alphas and not af):
                concat.compile(keras.optimizers.SGD(0.01), opt_loss)
                try:
                    concat.fit(bx, zero, batch_size=len(bx), epochs=1, verbose=0)
                    res.count("training steps")
                except NotImplementedError as e:
                    if "not working during training" not in str(e):
                        raise
                    res.count("refused training")  # batch normalization cannot be trained forward
                    op = "refused"
        # --- which variables are trainable
        want = ([] if wf else weights) + ([] if af else alphas)
        for name, m in (("model", d), ("training model", concat)):
            got = m.trainable_variables
            if ids(got) != ids(want):
                res.violation("%s:trainable" % h, "%s: %d trainable variables in the %s instead of %d (%s)" % (h, len(got), name, len(want), sorted({v.path for v in got} ^ {v.path for v in want})[:4]), {"history": history[-12:]})
            if ids(m.trainable_weights) != ids(want):
                res.violation("%s:trainable_weights" % h, "%s: the trainable weights of the %s are not its trainable variables" % (h, name))
            rest = sorted({id(v) for v in m.variables} - set(ids(want)))
            for nt in (m.non_trainable_variables, m.non_trainable_weights):
                if ids(nt) != rest:
                    res.violation("%s:non-trainable" % h, "%s: the non trainable variables of the %s are not the complement of the trainable ones" % (h, name))
        if ids(model.trainable_variables) != ids(weights) or ids(model.non_trainable_variables) != ids(moving):
            res.violation("%s:original" % h, "%s: the trainable variables of the original network changed" % h)
        if (ids(twin.trainable_variables), ids(twin.non_trainable_variables)) != twin_start:
            res.violation("%s:twin" % h, "%s: the trainable variables of another conversion of the network changed" % h)
        if ids(d.variables) != ids(all_vars):
            res.violation("%s:variables" % h, "%s: the variables of the converted model changed" % h)
        # --- their values
        new_w, new_a = values(weights + moving), values(alphas)
        same_w = [np.array_equal(a, b) for a, b in zip(old_w, new_w)]
        same_a = [np.array_equal(a, b) for a, b in zip(old_a, new_a)]
        if op == "train":
            if wf and not all(same_w):
                res.violation("%s:trained-weights" % h, "%s: the training changed frozen weights" % h)
            if not all(same_w[len(weights) :]):
                res.violation("%s:moving" % h, "%s: the training changed the statistics of a batch normalization" % h)
            if af and not all(same_a):
                res.violation("%s:trained-alphas" % h, "%s: the training changed frozen parameters" % h)
            if not wf and all(same_w[: len(weights)]) and me != "forward-ibp":
                res.violation("%s:untrained-weights" % h, "%s: the training changed no weight" % h)
            trained |= not all(same_w)
            moved |= not all(same_a)
            if any(a.size and (a.min() < 0 or a.max() > 1) for a in new_a):
                res.violation("%s:range" % h, "%s: the training left fine-tuning parameters outside [0, 1]" % h)
        else:
            if not all(same_w):
                res.violation("%s:weights" % h, "%s: the weights of the network changed" % h)
            if op not in ("reset_finetuning", "move") and not all(same_a):
                res.violation("%s:alpha-values" % h, "%s: fine-tuning parameters changed" % h)
        if op == "reset_finetuning" and not all(np.array_equal(a, b) for a, b in zip(new_a, start_a)):
            res.violation("%s:reset" % h, "%s: resetting does not restore the initial fine-tuning parameters" % h)
        # --- the bounds
        now = bounds()
        if op.endswith("freeze_weights") or op.endswith("freeze_alpha"):
            if any(not np.array_equal(a, b) for a, b in zip(before, now)):
                res.violation("%s:bounds" % h, "%s: the bounds changed" % h)
        if not moved and not trained and any(not np.allclose(a, b, rtol=1e-6, atol=1e-6) for a, b in zip(first, now)):
            res.violation("%s:initial-bounds" % h, "%s: the bounds are not the initial ones" % h)
        if op in ("train", "move", "start"):
            F = nets.predict(model, X).reshape(len(X), -1)
            common.check_sound(res, h, common.unpack(now, d.ibp, d.affine), mask, X, F, common.box_repr(bx))
            res.transitions += int(mask.sum())
        if op == "train" and trained:
            for v, w in zip(weights + moving, start_w):
                v.assign(w)
            trained = False
            now = bounds()
        if moved and op == "move":
            res.outcome(now[0])
        before = now
        res.states += 1
        res.transitions += 1
    res.traces += 1
    res.outcome(before[0])
    res.sample({"net": task["net"], "method": me, "finetune": task["ft"], "history": history[:10], "parameters": len(alphas), "weights": len(weights)})

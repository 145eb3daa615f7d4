"""C20: interval bounds: exact interval arithmetic layer by layer, monotone under inclusion."""
import itertools

import numpy as np

from mc import nets

VALS = [-1.5, -0.5, 0.0, 1.0]
BOUNDS = (
    "every layer word of length 1 and 2 over the 36-macro alphabet (thorough: of length 3 over 14 macros), words of length 1 with 1 and 3 inputs/outputs, 10 convolution/pooling/"
    "permutation configurations; 2 weight patterns; all 100 boxes with corners on {-1.5,-.5,0,1}^2 and every pair of nested boxes; forward-ibp conversion, "
    "interval output of a hybrid forward conversion on the words of length 1 and of 14 x 11 words of length 2, splitting of the boxes in 1, 2, 4 and 8 parts"
)
ASSUMPTIONS = ["for networks with an elementwise maximum, minimum or product the bounds only have to contain the interval arithmetic and to be monotone (their relaxation is looser by design)", "values outside of the lattices are not explored", "float32 slack 2e-5 + 2e-5*magnitude"]
ORACLE = "an independent interval interpreter in float64 (affine layers read as matrices from keras' own layers, monotone activations, exact min/max/products of intervals), and pairwise comparison of the bounds of nested boxes"
MERGES = ["dense_relu", "res_add", "res_sub", "res_avg", "res_max", "res_min", "res_mul", "res_concat", "add3", "avg3", "concat3"]
CORE = ["dense", "dense_relu", "relu", "dense_tanh", "sigmoid", "nested", "bn", "res_add", "res_max", "res_mul", "res_concat", "dense3d", "conv_same", "maxpool"]
# elementwise maximum, minimum and product: sound relaxations looser than interval arithmetic by design
LOOSE = {"res_max", "res_min", "max2", "res_mul", "reuse_max"}

SHAPES = {
    "conv-dilated": [("dense", {"u": 9}), ("reshape", {"t": [3, 3, 1]}), ("conv", {"f": 2, "k": [2, 2], "dil": [2, 1]}), ("flatten",)],
    "conv-stride-same": [("dense", {"u": 12}), ("reshape", {"t": [3, 2, 2]}), ("conv", {"f": 2, "k": [2, 2], "s": [2, 1], "p": "same", "act": "relu"}), ("flatten",)],
    "conv-first": [("dense", {"u": 12}), ("reshape", {"t": [2, 2, 3]}), ("conv", {"f": 2, "k": [2, 1], "df": "channels_first"}), ("flatten",)],
    "pool-stride": [("dense", {"u": 12}), ("reshape", {"t": [3, 2, 2]}), ("maxpool", {"k": [2, 2], "s": [1, 2], "p": "same"}), ("flatten",)],
    "pool-valid": [("dense", {"u": 12}), ("reshape", {"t": [4, 3, 1]}), ("maxpool", {"k": [3, 2], "s": [1, 1]}), ("flatten",)],
    "permute3": [("dense", {"u": 6}), ("reshape", {"t": [3, 2, 1]}), ("permute", {"d": [3, 1, 2]}), ("flatten",)],
    "bn-axis": [("dense", {"u": 6}), ("reshape", {"t": [3, 2]}), ("bn", {"axis": 1}), ("flatten",)],
    "dense-rank3": [("dense", {"u": 6}), ("reshape", {"t": [3, 2]}), ("dense", {"u": 3, "act": "softsign"}), ("flatten",)],
    "exp-chain": [("dense", {"u": 3, "act": "exponential"}), ("dense", {"u": 2, "act": "softplus"}), ("dense", {"u": 2})],
}


# ------------------------------------------------------------------ independent interval interpreter
def _call(f, x):
    from mc.common import to_np

    return to_np(f(np.asarray(x, np.float32), training=False)).astype(np.float64)


def _affine(layer, L, U):
    """interval image of an affine layer whose matrix is read from its own forward pass"""
    n = int(np.prod(L.shape[1:]))
    pts = np.concatenate([np.zeros((1, n)), np.eye(n)]).reshape((n + 1,) + L.shape[1:])
    Y = _call(layer, pts)
    o = Y.shape[1:]
    Y = Y.reshape(n + 1, -1)
    A, b = Y[1:] - Y[:1], Y[0]
    P, N = np.maximum(A, 0), np.minimum(A, 0)
    l, u = L.reshape(len(L), -1), U.reshape(len(U), -1)
    return (l @ P + u @ N + b).reshape((-1,) + o), (u @ P + l @ N + b).reshape((-1,) + o)


def _act(f, x):
    if f in (None, "linear"):
        return x
    return {"relu": lambda v: np.maximum(v, 0), "sigmoid": lambda v: 1 / (1 + np.exp(-v)), "tanh": np.tanh, "softsign": lambda v: v / (1 + np.abs(v)), "softplus": lambda v: np.logaddexp(0, v), "exponential": np.exp}[f](x)


def _merge(m, a, ins):
    ls, us = [i[0] for i in ins], [i[1] for i in ins]
    if m == "Add":
        return sum(ls), sum(us)
    if m == "Average":
        return sum(ls) / len(ls), sum(us) / len(us)
    if m == "Subtract":
        return ls[0] - us[1], us[0] - ls[1]
    if m == "Maximum":
        return np.max(ls, 0), np.max(us, 0)
    if m == "Minimum":
        return np.min(ls, 0), np.min(us, 0)
    if m == "Concatenate":
        return np.concatenate(ls, a.get("axis", -1)), np.concatenate(us, a.get("axis", -1))
    if m == "Multiply":
        c = [x * y for x in (ls[0], us[0]) for y in (ls[1], us[1])]
        return np.min(c, 0), np.max(c, 0)
    raise KeyError(m)


def interpret(prog, weights, L, U, pre=None):
    """intervals of the last node; weights is a mutable list consumed in the order of the nodes;
    the intervals entering a relu are appended to pre"""
    vals, layers = [], []

    def act_(f, v):
        if f == "relu" and pre is not None:
            pre.append([t.reshape(len(t), -1) for t in v])
        return tuple(_act(f, t) for t in v)

    for op, a, ins in prog:
        layer = None
        if op == "in":
            v = (np.asarray(L, np.float64), np.asarray(U, np.float64))
        elif op == "act":
            v = act_(a["f"], vals[ins[0]])
        elif op == "merge":
            v = _merge(a["m"], a, [vals[i] for i in ins])
        elif op == "sub":
            v = interpret(a["prog"], weights, *vals[ins[0]], pre=pre)
        elif op == "maxpool":
            layer = nets.make_layer(op, a)
            v = tuple(_call(layer, t) for t in vals[ins[0]])
        else:
            i = vals[ins[0]]
            if op == "again":
                layer, act = layers[a["of"]]
            else:
                act = a.get("act")
                layer = nets.make_layer(op, {k: b for k, b in a.items() if k != "act"})
                _call(layer, i[0][:1])
                n = len(layer.weights)
                layer.set_weights([weights.pop(0) for _ in range(n)])
            v = act_(act, _affine(layer, *i))
            layers.append((layer, act))
            vals.append(v)
            continue
        layers.append((layer, None))
        vals.append(v)
    return vals[-1]


def node_weights(prog, layers):
    """weights of the layers in the order of the nodes of the program (nested programs are chains)"""
    return [w for n, l in zip(prog, layers) if l is not None and n[0] != "again" for w in l.get_weights()]


def tasks(tier):
    out = []
    for m in nets.MACROS:
        out.append({"id": m, "words": [[m]], "split": True, "hybrid": True, "cost": 2})
        for dim, o in ((1, 1), (3, 3)):
            out.append({"id": "dim%d/%s" % (dim, m), "words": [[m]], "dim": dim, "out": o, "cost": 2})
        out.append({"id": "%s+*" % m, "words": [[m, b] for b in nets.MACROS], "hybrid": tier == "thorough" or m in CORE or None, "cost": 10})
    if tier == "thorough":
        for a, b in itertools.product(CORE, repeat=2):
            out.append({"id": "%s+%s+*" % (a, b), "words": [[a, b, c] for c in CORE], "cost": 10})
    for n in SHAPES:
        out.append({"id": n, "shape": n, "split": True, "hybrid": True})
    for m in ("dense_relu", "res_max", "conv_same", "bn"):
        out.append({"id": "tf/%s" % m, "words": [[m]], "backend": "tensorflow", "split": True, "cost": 8})
    for t in out:
        t["tier"] = tier
    return out


def run_task(task, res):
    from decomon import get_lower_box, get_range_box, get_upper_box

    from mc import common, e2e

    dim = task.get("dim", 2)
    tier_thorough = task.get("tier") == "thorough"
    vals = VALS if dim < 3 else [-1.0, 0.0, 1.0]
    Z = common.boxes(vals, dim)
    # pairs (i, j) such that box i is inside box j
    I, J = np.nonzero(np.all((Z[:, None, 0] >= Z[None, :, 0]) & (Z[:, None, 1] <= Z[None, :, 1]), -1))
    progs = [nets.chain(2, *SHAPES[task["shape"]])] if "shape" in task else [nets.word_program(w, dim=dim, out=task.get("out", 2)) for w in task["words"]]
    names = [task["shape"]] if "shape" in task else ["+".join(w) for w in task["words"]]
    for name, prog in zip(names, progs):
        for k in (0, 1):
            nodes = []
            model = nets.build(prog, layers=nodes)
            model.set_weights(nets.pattern_weights(model, k))
            ws = node_weights(prog, nodes)
            l, u = interpret(prog, ws, Z[:, 0], Z[:, 1])
            assert not ws
            l, u = l.reshape(len(Z), -1), u.reshape(len(Z), -1)
            # the reference has to contain the network itself (guards the oracle)
            F = nets.predict(model, Z.reshape(-1, dim)).reshape(len(Z), 2, -1)
            tol = 2e-5 + 2e-5 * max(np.abs(l).max(), np.abs(u).max())
            assert np.all(F <= u[:, None] + tol) and np.all(F >= l[:, None] - tol), "reference interval arithmetic is wrong"
            d = e2e.convert(model, "forward-ibp")
            U, L = [np.asarray(a, np.float64).reshape(len(Z), -1) for a in d.predict_on_single_batch_np(Z)[:2]]
            key = "%s/w%d" % (name, k)
            loose = bool(LOOSE & set(name.split("+")))
            if U.shape != u.shape:
                res.violation(key + ":shape", "%s outputs instead of %s" % (U.shape[1], u.shape[1]))
                continue
            for what, got, want in (("upper", U, u), ("lower", L, l)):
                sign = 1.0 if what == "upper" else -1.0
                err = (sign * (want - got) if loose else np.abs(got - want)).max(1)
                i = int(np.argmax(np.where(np.isfinite(err), err, np.inf)))
                if not err[i] <= tol:
                    res.violation("%s:exact %s" % (key, what), "the interval %s bound " + ("is inside" if loose else "differs from") + " interval arithmetic by %.5g on the box %s: %s instead of %s" % (what, err[i], Z[i].tolist(), got[i].tolist(), want[i].tolist()))
            for what, gap in (("upper", U[I] - U[J]), ("lower", L[J] - L[I])):
                i = int(np.argmax(gap.max(1)))
                if not gap[i].max() <= tol:
                    res.violation("%s:monotone %s" % (key, what), "the %s bound of the box %s is looser than that of the box %s containing it, by %.5g" % (what, Z[I[i]].tolist(), Z[J[i]].tolist(), gap[i].max()))
            res.states += len(Z)
            res.transitions += len(I)
            res.traces += 1
            res.outcome(U)
            if task.get("hybrid") and (tier_thorough or len(name.split("+")) < 2 or (k == 0 and name.split("+")[1] in MERGES)):
                h = e2e.convert(model, "forward-hybrid", final_ibp=True, final_affine=True)
                r = common.unpack(h.predict_on_single_batch_np(Z), True, True)
                for what, gap in (("upper", r["u"] - U), ("lower", L - r["l"])):
                    i = int(np.argmax(gap.max(1)))
                    if not gap[i].max() <= tol:
                        res.violation("%s:hybrid %s" % (key, what), "the hybrid constant %s bound of the box %s is looser than the interval propagation by %.5g" % (what, Z[i].tolist(), gap[i].max()))
                res.traces += 1
                res.states += len(Z)
            if task.get("split"):
                prev = None
                for n in (1, 2, 4, 8):
                    up = np.asarray(get_upper_box(d, Z[:, 0], Z[:, 1], n_sub_boxes=n))
                    lo = np.asarray(get_lower_box(d, Z[:, 0], Z[:, 1], n_sub_boxes=n))
                    ru, rl = get_range_box(d, Z[:, 0], Z[:, 1], n_sub_boxes=n)
                    if prev is None:
                        prev = (U, L)
                    for what, gap in (("get_upper_box", up - prev[0]), ("get_lower_box", prev[1] - lo), ("upper get_range_box", np.asarray(ru) - prev[0]), ("lower get_range_box", prev[1] - np.asarray(rl))):
                        i = int(np.argmax(gap.max(1)))
                        if not gap[i].max() <= tol:
                            res.violation("%s:split%d %s" % (key, n, what), "%s with %d sub-boxes is looser than with fewer of them, by %.5g, on the box %s" % (what, n, gap[i].max(), Z[i].tolist()))
                    prev = (up, lo)
                    res.states += len(Z)
                    res.transitions += len(Z)
                    res.traces += 3
        res.sample({"program": prog, "box": Z[len(Z) // 2].tolist(), "interval": [l[len(Z) // 2].tolist(), u[len(Z) // 2].tolist()]})

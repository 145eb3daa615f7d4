"""Network programs: a JSON-able list of nodes -> Keras model; deterministic weight lattices."""
import itertools

import numpy as np

# node = [op, args(dict), [input node indices]] ; node 0 is always ["in", {"dim": d}, []]


def chain(dim, *ops):
    prog = [["in", {"dim": dim}, []]]
    for op in ops:
        op = list(op)
        prog.append([op[0], op[1] if len(op) > 1 else {}, [len(prog) - 1]])
    return prog


def make_layer(op, a):
    import keras
    from keras import layers as L

    a = dict(a)
    if op == "dense":
        return L.Dense(a["u"], activation=a.get("act"), use_bias=a.get("bias", True))
    if op == "act":
        return L.Activation(a["f"])
    if op == "relu_layer":
        return L.ReLU()
    if op == "softmax_layer":
        return L.Softmax()
    if op == "conv":
        return L.Conv2D(
            a["f"],
            a["k"],
            strides=a.get("s", 1),
            padding=a.get("p", "valid"),
            dilation_rate=a.get("dil", 1),
            activation=a.get("act"),
            use_bias=a.get("bias", True),
            data_format=a.get("df", "channels_last"),
        )
    if op == "maxpool":
        return L.MaxPooling2D(pool_size=a["k"], strides=a.get("s"), padding=a.get("p", "valid"), data_format=a.get("df", "channels_last"))
    if op == "flatten":
        return L.Flatten(data_format=a.get("df")) if a.get("df") else L.Flatten()
    if op == "reshape":
        return L.Reshape(a["t"])
    if op == "permute":
        return L.Permute(a["d"])
    if op == "dropout":
        return L.Dropout(a.get("r", 0.5))
    if op == "bn":
        return L.BatchNormalization(axis=a.get("axis", -1), center=a.get("center", True), scale=a.get("scale", True))
    if op == "merge":
        kw = {k: v for k, v in a.items() if k != "m"}
        return getattr(L, a["m"])(**kw)
    if op == "sub":
        return build(a["prog"], seq=a.get("seq", False))
    raise KeyError(op)


def build(prog, seq=False, outputs=None, layers=None):
    """seq: build a Sequential model (chains only)."""
    from keras.layers import Input
    from keras.models import Model, Sequential

    if seq:
        m = Sequential([Input((prog[0][1]["dim"],))])
        for n in prog[1:]:
            m.add(make_layer(n[0], n[1]))
        return m
    ts, ls = [], []
    for op, a, ins in prog:
        if op == "in":
            ts.append(Input((a["dim"],)))
            ls.append(None)
        elif op == "again":  # reuse the layer object of node a["of"]
            l = ls[a["of"]]
            ls.append(l)
            ts.append(l(ts[ins[0]]))
        else:
            l = make_layer(op, a)
            ls.append(l)
            x = [ts[i] for i in ins]
            ts.append(l(x if len(x) > 1 else x[0]))
    if layers is not None:
        layers.extend(ls)  # the layer of every node
    outs = outputs or [len(ts) - 1]
    outs = [ts[i] for i in outs]
    return Model(ts[0], outs if len(outs) > 1 else outs[0])


def set_weights(model, vals):
    model.set_weights(vals)


def pattern_weights(model, k, values=(1.0, -1.0, 0.5, -0.75, 1.25, 0.0, -0.5, 0.75)):
    """k-th deterministic weight assignment of a model: entry j takes values[(a*j + b*j*j + k*c) mod n].
    BatchNorm variances stay positive."""
    out = []
    n = len(values)
    j = 0
    for v in model.weights:
        w = np.zeros(v.shape, dtype=np.float32)
        flat = w.reshape(-1)
        for t in range(flat.size):
            idx = (3 * j + (j * j * (1 + k % 3)) // 2 + 5 * k + (t * (k + 1)) // 3) % n
            flat[t] = values[idx]
            j += 1
        name = v.path if hasattr(v, "path") else v.name
        if "variance" in name:
            w = np.abs(w) + 0.5
        out.append(w)
    return out


def count_params(model):
    return int(sum(int(np.prod(v.shape)) for v in model.weights))


def all_weights(model, values):
    """iterate over every assignment of `values` to the weights of the model"""
    shapes = [tuple(v.shape) for v in model.weights]
    sizes = [int(np.prod(s)) for s in shapes]
    for a in itertools.product(values, repeat=sum(sizes)):
        out, i = [], 0
        for s, n in zip(shapes, sizes):
            out.append(np.array(a[i : i + n], dtype=np.float32).reshape(s))
            i += n
        yield out


def predict(model, X):
    from mc.common import to_np

    y = model(np.asarray(X, dtype=np.float32), training=False)
    return to_np(y)


METHODS = ["crown", "crown-forward-ibp", "crown-forward-affine", "crown-forward-hybrid", "forward-ibp", "forward-affine", "forward-hybrid"]
SLOPES = ["volume-slope", "adaptative-slope", "same-slope", "zero-lb", "one-lb"]


def is_forward(m):
    return m.startswith("forward")


# What the pinned tree converts.  Everything else is rejected with an exception (and property
# C25 checks that it is either rejected or bounded soundly).
CROWN_MERGE = {"reuse_add", "reuse_max", "res_add", "res_sub", "res_avg", "res_max", "res_min", "res_mul", "res_concat", "add3", "avg3", "max2", "concat3", "maxpool"}
SMOOTH = {"sigmoid", "tanh", "softsign", "softplus", "exponential", "dense_tanh"}


def supported(word, method, slope="volume-slope"):
    if is_forward(method):
        ok = True
    else:
        bad = CROWN_MERGE | {"exponential", "shared_layer"}
        ok = not any(m in bad for m in word)
    if slope == "adaptative-slope" and "softplus" in word and method not in ("forward-ibp",):
        ok = False
    return ok


# ----------------------------------------------------------------------------- macro alphabet
# every macro maps a flat vector of width 2 to a flat vector of width 2, so that sequences
# of macros compose freely: programs of depth k = all words of length k over the alphabet.
def _seq(*ops):
    def f(prog):
        for op in ops:
            prog.append([op[0], op[1] if len(op) > 1 else {}, [len(prog) - 1]])

    return f


def _merge(m, branch_b, post=(), swap=False, **kw):
    def f(prog):
        a = len(prog) - 1
        cur = a
        for op in branch_b:
            prog.append([op[0], op[1] if len(op) > 1 else {}, [cur]])
            cur = len(prog) - 1
        ins = [cur, a] if swap else [a, cur]
        prog.append(["merge", dict(kw, m=m), ins])
        for op in post:
            prog.append([op[0], op[1] if len(op) > 1 else {}, [len(prog) - 1]])

    return f


def _two_branches(m, n=2, post=(), act="relu", **kw):
    def f(prog):
        a = len(prog) - 1
        ends = []
        for i in range(n):
            prog.append(["dense", {"u": 2}, [a]])
            if i % 2 == 0 and act:
                prog.append(["act", {"f": act}, [len(prog) - 1]])
            ends.append(len(prog) - 1)
        prog.append(["merge", dict(kw, m=m), ends])
        for op in post:
            prog.append([op[0], op[1] if len(op) > 1 else {}, [len(prog) - 1]])

    return f


def _shared(prog):
    a = len(prog) - 1
    prog.append(["dense", {"u": 2}, [a]])
    d = len(prog) - 1
    prog.append(["act", {"f": "relu"}, [d]])
    prog.append(["again", {"of": d}, [len(prog) - 1]])


def _reuse(m):
    """the operands of a merge are used again after it"""

    def f(prog):
        a = len(prog) - 1
        prog.append(["dense", {"u": 2}, [a]])
        prog.append(["merge", {"m": m}, [a, a + 1]])
        prog.append(["merge", {"m": "Concatenate", "axis": -1}, [a + 2, a, a + 1]])
        prog.append(["dense", {"u": 2}, [a + 3]])

    return f


D2 = ("dense", {"u": 2})
RELU = ("act", {"f": "relu"})
MACROS = {
    "dense": _seq(D2),
    "dense_nobias": _seq(("dense", {"u": 2, "bias": False})),
    "dense_relu": _seq(("dense", {"u": 2, "act": "relu"})),
    "dense_tanh": _seq(("dense", {"u": 2, "act": "tanh"})),
    "relu": _seq(RELU),
    "sigmoid": _seq(("act", {"f": "sigmoid"})),
    "tanh": _seq(("act", {"f": "tanh"})),
    "softsign": _seq(("act", {"f": "softsign"})),
    "softplus": _seq(("act", {"f": "softplus"})),
    "exponential": _seq(("act", {"f": "exponential"})),
    "linear": _seq(("act", {"f": "linear"})),
    "bn": _seq(("bn", {})),
    "dropout": _seq(("dropout", {})),
    "flatten": _seq(("flatten", {})),
    "reshape_permute": _seq(("reshape", {"t": [2, 1]}), ("permute", {"d": [2, 1]}), ("reshape", {"t": [2]})),
    "dense3d": _seq(("dense", {"u": 4}), ("reshape", {"t": [2, 2]}), ("dense", {"u": 2}), ("act", {"f": "relu"}), ("permute", {"d": [2, 1]}), ("flatten",), D2),
    "conv": _seq(("dense", {"u": 6}), ("reshape", {"t": [2, 3, 1]}), ("conv", {"f": 2, "k": [2, 2]}), RELU, ("flatten",), D2),
    "conv_same": _seq(("dense", {"u": 6}), ("reshape", {"t": [3, 2, 1]}), ("conv", {"f": 1, "k": [3, 2], "p": "same", "act": "relu"}), ("flatten",), D2),
    "conv_stride": _seq(("dense", {"u": 8}), ("reshape", {"t": [2, 2, 2]}), ("conv", {"f": 2, "k": [1, 1], "s": [2, 2], "bias": False}), ("flatten",), RELU),
    "nested": _seq(("sub", {"prog": chain(2, D2, RELU)})),
    "nested_seq": _seq(("sub", {"prog": chain(2, ("dense", {"u": 3, "act": "relu"}), D2), "seq": True})),
    "shared_layer": _shared,
    "maxpool": _seq(("dense", {"u": 8}), ("reshape", {"t": [2, 2, 2]}), ("maxpool", {"k": [2, 2]}), ("flatten",)),
    "res_add": _merge("Add", [D2, RELU]),
    "res_sub": _merge("Subtract", [D2, RELU]),
    "res_avg": _merge("Average", [D2, RELU]),
    "res_max": _merge("Maximum", [D2]),
    "res_min": _merge("Minimum", [D2]),
    "res_mul": _merge("Multiply", [D2]),
    "res_concat": _merge("Concatenate", [D2, RELU], post=[D2], axis=-1),
    "reuse_add": _reuse("Add"),
    "reuse_max": _reuse("Maximum"),
    "add3": _two_branches("Add", 3),
    "avg3": _two_branches("Average", 3),
    "max2": _two_branches("Maximum", 2),
    "concat3": _two_branches("Concatenate", 3, post=[D2], axis=1),
}


def word_program(word, dim=2, head=True, tail=True, out=2):
    """program for a word over MACROS; head: initial Dense(2) so that macros see non trivial input"""
    prog = [["in", {"dim": dim}, []]]
    if head:
        prog.append(["dense", {"u": 2}, [0]])
    for m in word:
        MACROS[m](prog)
    if tail:
        prog.append(["dense", {"u": out}, [len(prog) - 1]])
    return prog

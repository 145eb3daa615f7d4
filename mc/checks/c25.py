"""C25: every request of an extended alphabet is either refused with an error or bounded soundly."""
import itertools

import numpy as np

from mc import common, nets

BOUNDS = (
    "an alphabet extended with 150 keras layers, activations, layer arguments, graphs, custom layers and input forms, most of which decomon does not convert, "
    "alone and (thorough tier: x 4 contexts) followed by a dense or relu layer x 7 methods x {box, l2 ball (l3, l4 and l6 balls on one network)} and, on a box, x 5 slopes (thorough), both final "
    "outputs, fine-tuning; the 36 macros of the main alphabet that backward methods refuse x these methods x 5 slopes; all domains and points of the lattices "
    "whenever the request is accepted; every pair of corners of a 3 x 3 lattice, ordered or not, anywhere in a batch, given to the functions on boxes"
)
ASSUMPTIONS = [
    "networks, weights, domains and points restricted to the stated lattices",
    "a refusal is any exception raised while converting or computing the bounds; which one is not decided",
]
ORACLE = "keras' forward pass of the network at every lattice point of every domain."

H = ("dense", {"u": 8})
IMG = ((4, 2, 1), (2, 2, 2))


def _layers():
    """name -> (shape given to the layer, function building it)"""
    import keras
    from keras import layers as L

    class Double(L.Layer):
        def call(self, x):
            return 2 * x

    class MyDense(L.Dense):
        def call(self, x):
            return keras.ops.abs(super().call(x))

    class MyRelu(L.ReLU):
        def call(self, x):
            return -super().call(x)

    class MyAdd(L.Add):
        pass

    V = (8,)
    I = (2, 2, 2)
    J = (3, 3, 1)  # needs dense of 9
    S = (4, 2)
    out = {}
    for a in ("elu", "selu", "gelu", "silu", "hard_sigmoid", "hard_silu", "leaky_relu", "relu6", "mish", "log_softmax", "softmax", "exponential", "softplus"):
        out["act-" + a] = (V, lambda a=a: L.Activation(a))
        out["dense-" + a] = (V, lambda a=a: L.Dense(3, activation=a))
    out["act-custom"] = (V, lambda: L.Activation(lambda x: keras.ops.square(x)))
    out["act-ops-relu"] = (V, lambda: L.Activation(keras.ops.relu))
    out["dense-custom"] = (V, lambda: L.Dense(3, activation=lambda x: -x))
    out["dense-layer-act"] = (V, lambda: L.Dense(3, activation=L.ReLU()))
    out["dense-leaky-act"] = (V, lambda: L.Dense(3, activation=L.LeakyReLU(0.5)))
    out["conv-layer-act"] = (I, lambda: L.Conv2D(2, 2, activation=L.LeakyReLU(0.5)))
    out["conv-elu"] = (I, lambda: L.Conv2D(2, 2, activation="elu"))
    out["leaky"] = (V, lambda: L.LeakyReLU(0.25))
    out["prelu"] = (V, lambda: L.PReLU(alpha_initializer=keras.initializers.Constant(0.5)))
    out["elu"] = (V, lambda: L.ELU(0.5))
    out["relu-max"] = (V, lambda: L.ReLU(max_value=0.5))
    out["relu-slope"] = (V, lambda: L.ReLU(negative_slope=0.5))
    out["relu-threshold"] = (V, lambda: L.ReLU(threshold=0.5))
    out["softmax-mid"] = (V, lambda: L.Softmax())
    out["softmax-axis"] = (S, lambda: L.Softmax(axis=1))
    out["my-dense"] = (V, lambda: MyDense(3))
    out["my-relu"] = (V, lambda: MyRelu())
    out["double"] = (V, lambda: Double())
    out["lambda"] = (V, lambda: L.Lambda(lambda x: x * x))
    out["rescaling"] = (V, lambda: L.Rescaling(-2.0, 0.5))
    out["normalization"] = (V, lambda: L.Normalization(mean=0.5, variance=0.25))
    out["identity"] = (V, lambda: L.Identity())
    out["layernorm"] = (V, lambda: L.LayerNormalization())
    out["unitnorm"] = (V, lambda: L.UnitNormalization())
    out["groupnorm"] = (V, lambda: L.GroupNormalization(groups=2))
    out["noise"] = (V, lambda: L.GaussianNoise(0.5))
    out["activity"] = (V, lambda: L.ActivityRegularization(0.1))
    out["alphadropout"] = (V, lambda: L.AlphaDropout(0.5))
    out["repeat"] = (V, lambda: L.RepeatVector(2))
    out["einsum"] = (S, lambda: L.EinsumDense("abc,cd->abd", output_shape=(None, 3)))
    out["dense-spectral"] = (V, lambda: L.SpectralNormalization(L.Dense(3)))
    out["timedist"] = (S, lambda: L.TimeDistributed(L.Dense(3)))
    out["rnn"] = (S, lambda: L.SimpleRNN(3))
    out["lstm"] = (S, lambda: L.LSTM(2))
    out["conv1d"] = (S, lambda: L.Conv1D(2, 2))
    out["conv3d"] = ((2, 2, 2, 1), lambda: L.Conv3D(2, 2))
    out["conv-groups"] = (I, lambda: L.Conv2D(2, 2, groups=2))
    out["conv-groups-same"] = (I, lambda: L.Conv2D(4, 1, groups=2, padding="same", activation="relu"))
    out["conv-dilated"] = (J, lambda: L.Conv2D(2, 2, dilation_rate=2))
    out["depthwise"] = (I, lambda: L.DepthwiseConv2D(2))
    out["separable"] = (I, lambda: L.SeparableConv2D(2, 2))
    out["transpose"] = (I, lambda: L.Conv2DTranspose(2, 2))
    out["avgpool"] = (I, lambda: L.AveragePooling2D(2))
    out["globalavg"] = (I, lambda: L.GlobalAveragePooling2D())
    out["globalmax"] = (I, lambda: L.GlobalMaxPooling2D())
    out["maxpool1d"] = (S, lambda: L.MaxPooling1D(2))
    out["maxpool-overlap"] = (J, lambda: L.MaxPooling2D(2, strides=1))
    out["maxpool-same"] = (J, lambda: L.MaxPooling2D(2, padding="same"))
    out["maxpool-rect"] = (J, lambda: L.MaxPooling2D((1, 3), strides=(2, 1)))
    out["maxpool-first"] = (I, lambda: L.MaxPooling2D(2, data_format="channels_first"))
    out["upsampling"] = (I, lambda: L.UpSampling2D(2))
    out["zeropad"] = (I, lambda: L.ZeroPadding2D(1))
    out["cropping"] = (J, lambda: L.Cropping2D(1))
    out["permute3"] = (I, lambda: L.Permute((3, 1, 2)))
    out["permute2"] = (S, lambda: L.Permute((2, 1)))
    out["reshape-neg"] = (V, lambda: L.Reshape((2, -1)))
    out["flatten-first"] = (I, lambda: L.Flatten(data_format="channels_first"))
    out["bn-axis1"] = (I, lambda: L.BatchNormalization(axis=1))
    out["bn-axis2"] = (I, lambda: L.BatchNormalization(axis=2))
    out["bn-image"] = (I, lambda: L.BatchNormalization())
    out["dense-image"] = (I, lambda: L.Dense(3, activation="relu"))
    out["dropout-image"] = (I, lambda: L.SpatialDropout2D(0.5))
    out["masking"] = (S, lambda: L.Masking(0.0))
    out["nested-leaky"] = (V, lambda: keras.Sequential([L.Input(V), L.Dense(3), L.LeakyReLU(0.5)]))
    out["nested-multi"] = (V, lambda: _two_outputs())
    return out


def _two_outputs():
    import keras
    from keras import layers as L

    x = L.Input((8,))
    a = L.Dense(3)(x)
    return keras.Model(x, [a, L.ReLU()(a)])


def _graphs():
    """name -> function building a whole model"""
    import keras
    from keras import layers as L

    def inp(*shape):
        return L.Input(shape)

    def f(g):
        def h():
            x = L.Input((2,))
            return keras.Model(x, g(L.Dense(4)(x)))

        return h

    out = {}
    for m in ("Add", "Subtract", "Multiply", "Average", "Maximum", "Minimum", "Concatenate", "Dot"):
        kw = {"axes": 1} if m == "Dot" else {}
        out["merge-" + m] = f(lambda x, m=m, kw=kw: getattr(L, m)(**kw)([x, L.Dense(4, activation="relu")(x)]))
        out["merge-same-" + m] = f(lambda x, m=m, kw=kw: getattr(L, m)(**kw)([x, x]))
        if m not in ("Concatenate", "Dot"):
            out["merge-broadcast-" + m] = f(lambda x, m=m: getattr(L, m)()([x, L.Dense(1)(x)]))
            out["merge-rank-" + m] = f(lambda x, m=m: L.Flatten()(getattr(L, m)()([L.Reshape((1, 4))(x), x])))
            out["merge-outer-" + m] = f(lambda x, m=m: L.Flatten()(getattr(L, m)()([L.Reshape((1, 4))(x), L.Reshape((2, 1))(L.Dense(2)(x))])))
    out["concat-axis1"] = f(lambda x: L.Flatten()(L.Concatenate(axis=1)([L.Reshape((2, 2))(x), L.Reshape((2, 2))(L.ReLU()(x))])))
    out["concat-axis-2"] = f(lambda x: L.Flatten()(L.Concatenate(axis=-2)([L.Reshape((2, 2))(x), L.Reshape((1, 2))(L.Dense(2, activation="relu")(x))])))
    out["dot-axes"] = f(lambda x: L.Flatten()(L.Dot(axes=(1, 2))([L.Reshape((2, 2))(x), L.Reshape((2, 2))(L.ReLU()(x))])))
    out["dot-normalize"] = f(lambda x: L.Dot(axes=1, normalize=True)([x, L.ReLU()(x)]))
    out["op-add"] = f(lambda x: x + L.ReLU()(x))
    out["op-mul"] = f(lambda x: 2.0 * x)
    out["op-relu"] = f(lambda x: keras.ops.relu(x))
    out["op-slice"] = f(lambda x: L.Dense(2)(x[:, :2]))
    out["op-abs"] = f(lambda x: L.Dense(2)(keras.ops.abs(x)))
    out["op-sum"] = f(lambda x: keras.ops.sum(x, axis=-1, keepdims=True))
    out["in-is-out"] = lambda: (lambda x: keras.Model(x, x))(L.Input((2,)))
    out["in-is-an-out"] = lambda: (lambda x: keras.Model(x, [x, L.Dense(2)(x)]))(L.Input((2,)))
    out["same-out-twice"] = lambda: (lambda x: (lambda y: keras.Model(x, [y, y]))(L.Dense(2, activation="relu")(x)))(L.Input((2,)))

    def shared_act(act):
        def h():
            x = L.Input((2,))
            r = L.ReLU() if act else L.Dense(2, activation="tanh")
            return keras.Model(x, L.Dense(2)(r(L.Dense(2)(r(L.Dense(2)(x))))))

        return h

    out["shared-relu"] = shared_act(True)
    out["shared-dense"] = shared_act(False)

    def shared_sub():
        x = L.Input((2,))
        s = keras.Sequential([L.Input((2,)), L.Dense(2, activation="relu")])
        return keras.Model(x, L.Dense(2)(s(s(x))))

    out["shared-submodel"] = shared_sub

    def siamese():
        x = L.Input((2,))
        s = L.Dense(2, activation="relu")
        return keras.Model(x, L.Subtract()([s(x), s(L.Dense(2)(x))]))

    out["siamese"] = siamese

    def in_shape(shape, *ls):
        def h():
            x = L.Input(shape)
            y = x
            for l in ls:
                y = l()(y)
            return keras.Model(x, y)

        return h

    out["in-image"] = in_shape((1, 2, 1), lambda: L.Conv2D(2, (1, 2)), L.Flatten, lambda: L.Dense(2))
    out["in-matrix"] = in_shape((2, 1), lambda: L.Dense(2, activation="relu"), L.Flatten, lambda: L.Dense(2))
    out["in-matrix-flat"] = in_shape((2, 1), L.Flatten, lambda: L.Dense(2, activation="relu"))
    out["in-free"] = in_shape((None, 2), lambda: L.Dense(2, activation="relu"))

    def two_inputs():
        a, b = L.Input((2,)), L.Input((2,))
        return keras.Model([a, b], L.Add()([L.Dense(2)(a), L.Dense(2)(b)]))

    out["two-inputs"] = two_inputs

    class Sub(keras.Model):
        def __init__(self):
            super().__init__()
            self.d = L.Dense(2, activation="relu")

        def call(self, x):
            return -self.d(x)

    def subclassed():
        m = Sub()
        m(np.zeros((1, 2), np.float32))
        return m

    out["subclassed"] = subclassed

    class SubF(keras.Model):
        """a functional model with another call"""

        def call(self, x, training=None, mask=None):
            return -super().call(x)

    def subclassed_functional():
        x = L.Input((2,))
        return SubF(x, L.Dense(2, activation="relu")(x))

    out["subclassed-functional"] = subclassed_functional
    def nested_subclassed():
        x, y = L.Input((2,)), L.Input((2,))
        return keras.Model(y, L.Dense(2)(SubF(x, L.Dense(2, activation="relu")(x))(y)))

    out["nested-subclassed"] = nested_subclassed

    class SubS(keras.Sequential):
        def call(self, x, training=None, mask=None):
            return -super().call(x)

    out["subclassed-sequential"] = lambda: SubS([L.Input((2,)), L.Dense(2, activation="relu")])

    def nested_subclassed_sequential():
        y = L.Input((2,))
        return keras.Model(y, L.Dense(2)(SubS([L.Input((2,)), L.Dense(2, activation="relu")])(y)))

    out["nested-subclassed-sequential"] = nested_subclassed_sequential

    class Trained(keras.Model):
        def train_step(self, *a, **kw):
            return {}

    def subclassed_training():
        x = L.Input((2,))
        return Trained(x, L.Dense(2, activation="relu")(x))

    out["subclassed-training"] = subclassed_training

    def two_calls():
        x, y = L.Input((2,)), L.Input((2,))
        inner = keras.Model(x, L.Dense(2, activation="relu")(x))
        inner(L.Input((2,)))
        return keras.Model(y, L.Dense(2)(inner(y)))

    out["called-elsewhere"] = two_calls

    def layer_elsewhere():
        x, y = L.Input((2,)), L.Input((2,))
        d = L.Dense(2, activation="relu")
        d(x)
        return keras.Model(y, L.Dense(2)(d(y)))

    out["layer-called-elsewhere"] = layer_elsewhere

    def inner_slice():
        x = L.Input((2,))
        h = L.Dense(3, activation="relu")(x)
        h2 = L.Dense(2)(h)
        return keras.Model(x, L.Dense(2)(keras.Model(x, h2)(x)))

    out["nested-on-same-input"] = inner_slice

    def truncated():
        x = L.Input((2,))
        h = L.Dense(2, activation="relu")(x)
        L.Dense(5)(h)
        return keras.Model(x, h)

    out["truncated"] = truncated

    def from_middle():
        x = L.Input((2,))
        h = L.Dense(2, activation="tanh")(x)
        return keras.Model(h, L.Dense(2, activation="relu")(h))

    out["from-the-middle"] = from_middle
    out["lora-inner"] = lambda: _lora(False)
    out["unbuilt-sequential"] = lambda: keras.Sequential([L.Dense(2, activation="relu"), L.Dense(2)])
    out["empty-sequential"] = lambda: keras.Sequential([L.Input((2,))])

    def f64():
        x = L.Input((2,), dtype="float64")
        return keras.Model(x, L.Dense(2, activation="relu", dtype="float64")(x))

    out["float64"] = f64

    def f16():
        x = L.Input((2,))
        return keras.Model(x, L.Dense(2, dtype="float16", activation="relu")(x))

    out["float16"] = f16

    def deep_nest():
        x = L.Input((2,))
        inner = keras.Sequential([L.Input((2,)), L.Dense(3), L.LeakyReLU(0.5)])
        mid = keras.Sequential([L.Input((2,)), inner, L.Dense(2)])
        return keras.Model(x, mid(x))

    out["deep-nested-leaky"] = deep_nest
    out["lora"] = _lora
    return out


def _lora(act=True):
    import keras
    from keras import layers as L

    x = L.Input((2,))
    d = L.Dense(3, activation="relu" if act else None)
    m = keras.Model(x, L.Dense(2)(L.ReLU()(d(x))))
    d.enable_lora(1)
    return m


CTX = {"last": (), "dense": ("dense",), "relu": ("relu",), "relu-before": ("pre",)}


def build(task, ctx):
    import keras
    from keras import layers as L

    if task["kind"] == "graph":
        return _graphs()[task["name"]]()
    if task["kind"] in ("word", "norm"):
        return nets.build(nets.word_program(task["name"].split("+")))
    shape, mk = _layers()[task["name"]]
    x = L.Input((2,))
    y = L.Dense(int(np.prod(shape)))(x)
    if "pre" in CTX[ctx]:
        y = L.ReLU()(y)
    if len(shape) > 1:
        y = L.Reshape(shape)(y)
    y = mk()(y)
    if isinstance(y, (list, tuple)):
        return keras.Model(x, list(y))
    if len(y.shape) > 2:
        y = L.Flatten()(y)
    if "dense" in CTX[ctx]:
        y = L.Dense(2)(y)
    if "relu" in CTX[ctx]:
        y = L.ReLU()(y)
    return keras.Model(x, y)


def tasks(tier):
    out = []
    for n in LAYERS:
        ctxs = list(CTX) if tier == "thorough" else ["dense"]
        if tier != "thorough" and n in ("my-dense", "my-relu", "leaky", "relu-max", "relu-slope", "relu-threshold", "dense-layer-act", "dense-leaky-act", "conv-groups", "conv-layer-act", "rescaling", "identity"):
            ctxs = ["dense", "last"]
        out.append({"id": "layer/%s" % n, "kind": "layer", "name": n, "ctxs": ctxs, "tier": tier, "cost": 2})
    for n in GRAPHS:
        out.append({"id": "graph/%s" % n, "kind": "graph", "name": n, "ctxs": ["last"], "tier": tier, "cost": 2})
    for m in nets.MACROS:
        bad = [[me, s] for me in nets.METHODS for s in nets.SLOPES if not nets.supported((m,), me, s)]
        if bad:
            out.append({"id": "word/%s" % m, "kind": "word", "name": m, "ctxs": ["last"], "bad": bad, "tier": tier, "cost": 2})
    for p in (3, 4, 6):
        out.append({"id": "norm/%d" % p, "kind": "norm", "name": "dense_relu", "p": p, "ctxs": ["last"], "tier": tier, "cost": 1})
    for m in nets.METHODS if tier == "thorough" else ("forward-ibp", "forward-affine", "crown-forward-ibp"):
        out.append({"id": "boxes/%s" % m, "kind": "boxes", "name": "dense_relu", "method": m, "tier": tier, "cost": 2})
    return out


LAYERS = ["act-" + a for a in ("elu", "selu", "gelu", "silu", "hard_sigmoid", "hard_silu", "leaky_relu", "relu6", "mish", "log_softmax", "softmax", "exponential", "softplus")]
LAYERS += ["dense-" + a[4:] for a in LAYERS]
LAYERS += (
    "act-custom act-ops-relu dense-custom dense-layer-act dense-leaky-act conv-layer-act conv-elu leaky prelu elu relu-max relu-slope relu-threshold softmax-mid softmax-axis my-dense my-relu double "
    "lambda rescaling normalization identity layernorm unitnorm groupnorm noise activity alphadropout repeat einsum dense-spectral timedist rnn lstm conv1d conv3d conv-groups conv-groups-same "
    "conv-dilated depthwise separable transpose avgpool globalavg globalmax maxpool1d maxpool-overlap maxpool-same maxpool-rect maxpool-first upsampling zeropad cropping permute3 permute2 "
    "reshape-neg flatten-first bn-axis1 bn-axis2 bn-image dense-image dropout-image masking nested-leaky nested-multi"
).split()
_M = ("Add", "Subtract", "Multiply", "Average", "Maximum", "Minimum")
GRAPHS = ["merge-" + m for m in _M + ("Concatenate", "Dot")] + ["merge-same-" + m for m in _M + ("Concatenate", "Dot")]
GRAPHS += ["merge-%s-%s" % (k, m) for k in ("broadcast", "rank", "outer") for m in _M]
GRAPHS += (
    "concat-axis1 concat-axis-2 dot-axes dot-normalize op-add op-mul op-relu op-slice op-abs op-sum in-is-out in-is-an-out same-out-twice shared-relu shared-dense shared-submodel siamese "
    "in-image in-matrix in-matrix-flat in-free two-inputs subclassed subclassed-functional unbuilt-sequential empty-sequential float64 float16 deep-nested-leaky lora lora-inner nested-subclassed "
    "subclassed-sequential nested-subclassed-sequential subclassed-training called-elsewhere layer-called-elsewhere nested-on-same-input truncated from-the-middle"
).split()


def requests(task):
    """(method, domain, options)"""
    if task["kind"] == "norm":
        return [(m, "l2", {"final_ibp": fi, "final_affine": fa}) for m in nets.METHODS for fi, fa in ((True, False), (False, True), (True, True))]
    if task["kind"] == "word":
        return [(m, dom, {"slope": s}) for m, s in task["bad"] for dom in ("box",) + (("l2",) if s == "volume-slope" else ())]
    out = []
    for m in nets.METHODS:
        out += [(m, "box", {}), (m, "l2", {}), (m, "box", {"final_ibp": True, "final_affine": True})]
        slopes = nets.SLOPES[1:] if task["tier"] == "thorough" else ["same-slope"]
        out += [(m, "box", {"slope": s}) for s in slopes]
        if m in ("crown", "forward-hybrid") or task["tier"] == "thorough":
            out.append((m, "box", {"finetune": True}))
    return out


def corners(task, res):
    """boxes having an exchanged pair of corners are refused, wherever they are in the batch, and the others are not"""
    import decomon
    from decomon.models import clone

    model = nets.build(nets.word_program(["dense_relu"]))
    model.set_weights(nets.pattern_weights(model, 0))
    d = clone(model, method=task["method"])
    vals = [-1.0, 0.25, 1.0]
    P = common.points(vals, 2)
    pairs = [(a, b) for a in P for b in P]
    good = np.stack([P[0], P[0]]), np.stack([P[-1], P[-1]])
    n_out = int(model.output_shape[-1])
    calls = {
        "get_range_box": {},
        "get_upper_box": {},
        "get_lower_box": {},
        "get_adv_box": {"source_labels": 0},
        "check_adv_box": {"source_labels": 0},
    }
    for name, kw in calls.items():
        if name == "check_adv_box" and not d.affine:  # (needs affine bounds)
            continue
        f = getattr(decomon, name) if hasattr(decomon, name) else getattr(decomon.wrapper, name)
        for sub, bs in itertools.product((1, 2), (-1, 2)):
            if name == "check_adv_box" and sub > 1:
                continue
            opts = dict(kw, batch_size=bs)
            if sub > 1:
                opts["n_sub_boxes"] = sub
            for pos in (0, 1, 2) if bs > 0 else (0, 2):
                for a, b in pairs:
                    lo, hi = np.insert(good[0], pos, a, 0), np.insert(good[1], pos, b, 0)
                    res.states += 1
                    try:
                        f(d, lo, hi, **opts)
                        accepted = True
                    except (UserWarning, ValueError, NotImplementedError):
                        accepted = False
                    res.count("accepted" if accepted else "refused")
                    if accepted != bool((a <= b).all()):
                        res.violation(
                            "%s/sub%d/batch%d/pos%d" % (name, sub, bs, pos),
                            "the box of corners %s, %s is %s" % (a.tolist(), b.tolist(), "accepted" if accepted else "refused"),
                        )
    res.transitions += res.states
    res.traces += 1
    res.sample({"request": task["id"], "counters": dict(res.counters)})


def run_task(task, res):
    if task["kind"] == "boxes":
        return corners(task, res)
    import keras
    from decomon.core import BallDomain
    from decomon.models import clone

    vals = [-1.5, 0.0, 1.0]
    bx = common.boxes(vals, 2)
    Xb = common.points(common.refine(vals, 2), 2)
    zc = common.points([-1.0, 0.0, 0.5], 2)
    Xc = common.points(np.round(np.arange(-1.75, 1.26, 0.25), 3).tolist(), 2)
    norm = task.get("p", 2)
    near = (np.abs(Xc[None] - zc[:, None]).astype(np.float64) ** norm).sum(-1) <= 0.75**norm + 1e-9
    spaces = {"box": (bx, Xb, common.inside(bx, Xb)), "l2": (zc, Xc, near)}
    for ctx in task["ctxs"]:
        for k in (0, 1):
            try:
                model = build(task, ctx)
                if not model.built:
                    res.count("refused" if refused(model, clone) else "accepted_unbuilt")
                    continue
                if any("seed" not in w.path for w in model.weights):
                    W = nets.pattern_weights(model, k)
                    W = [w0 if "seed" in v.path else w for v, w, w0 in zip(model.weights, W, model.get_weights())]
                    model.set_weights(W)
                F = {}
                for dom, (_, X, _) in spaces.items():
                    ins = model.inputs if hasattr(model, "inputs") else [None]
                    shape = [None if d is None else d for d in model.input_shape[1:]] if hasattr(model, "input_shape") and not isinstance(model.input_shape, list) else [2]
                    dt = "float64" if "float64" in task["name"] else "float32"
                    Z = X.astype(dt).reshape((len(X),) + tuple(1 if d is None else d for d in shape))
                    y = model([Z] * len(model.inputs) if len(ins or [0]) > 1 else Z, training=False)
                    y = common.to_np(y)
                    F[dom] = [np.asarray(e, np.float64).reshape(len(X), -1) for e in (y if isinstance(y, list) else [y])]
            except Exception as e:  # keras itself does not build or evaluate this network
                res.count("not_a_network")
                res.count("not_a_network:" + task["name"])
                continue
            for method, dom, kw in requests(task):
                z, X, mask = spaces[dom]
                key = "%s/%s/%s/%s/w%d" % (ctx, method, dom, ",".join("%s=%s" % (a, kw[a]) for a in sorted(kw)), k)
                opts = dict(kw)
                if dom == "l2":
                    opts["perturbation_domain"] = BallDomain(eps=0.75, p=norm)
                try:
                    d = clone(model, method=method, **opts)
                    out = d.predict_on_single_batch_np(z if "float64" not in task["name"] else z.astype("float64"))
                except Exception:
                    res.count("refused")
                    res.states += 1
                    continue
                res.count("accepted")
                out = out if isinstance(out, (list, tuple)) else [out]
                n = {(True, True): 7, (False, True): 5, (True, False): 2}[(d.ibp, d.affine)]
                o = F[dom]
                if len(out) != n * len(o):
                    res.violation(key + ":outputs", "%d tensors returned for the bounds of %d outputs" % (len(out), len(o)))
                    continue
                for i in range(len(o)):
                    r = common.unpack(out[n * i : n * (i + 1)], d.ibp, d.affine)
                    f = o[i]
                    if task["name"] in ("dense-softmax", "act-softmax", "softmax-mid", "dense-log_softmax") and ctx == "last":
                        continue  # the bounds are those of the logits
                    tol = 2e-2 if task["name"] == "float16" else None
                    common.check_sound(res, "%s/output%d" % (key, i), r, mask, X, f, lambda b: z[b].tolist(), tol=tol)
                    for v in r.values():
                        res.outcome(v)
                res.states += len(z)
                res.transitions += int(mask.sum())
                res.traces += 1
    res.sample({"request": task["name"], "counters": dict(res.counters)})


def refused(model, clone):
    try:
        clone(model)
    except Exception:
        return True
    return False

"""C26: preprocessing (splitting activations, unnesting) preserves the function and the weights."""
import itertools

import numpy as np

from mc import nets

D2, RELU = ("dense", {"u": 2}), ("act", {"f": "relu"})
DR = ("dense", {"u": 2, "act": "relu"})
C = nets.chain
BOUNDS = (
    "every layer word of length 1 and 2 over a 36-macro alphabet (nested, sequential, shared and merging parts, embedded "
    "activations) with and without a final softmax, plus 14 special graphs (doubly nested, nested twice, several outputs, PReLU, "
    "same names, conv/embedded activations, channels_first) and 14 layers with their options (strides, dilations, groups, data formats, without bias) x 6 embedded activations, alone, shared or nested x {preprocess, split activations, preprocess twice} x 2 weight "
    "patterns x all lattice points; weights updated after the preprocessing"
)
ASSUMPTIONS = ["programs and inputs restricted to the stated lattices"]
EXTRA = {
    "double_nested": C(2, D2, ("sub", {"prog": C(2, DR, ("sub", {"prog": C(2, DR, D2)}), DR)}), DR),
    "nested_seq_in_nested": C(2, ("sub", {"prog": C(2, ("sub", {"prog": C(2, DR, DR), "seq": True}), D2)}), RELU),
    "nested_first": C(2, ("sub", {"prog": C(2, DR, DR)}), D2),
    "nested_last": C(2, DR, ("sub", {"prog": C(2, DR, ("dense", {"u": 2, "act": "softmax"}))})),
    "nested_twice": [["in", {"dim": 2}, []], ["sub", {"prog": C(2, DR, D2)}, [0]], ["again", {"of": 1}, [1]], ["merge", {"m": "Subtract"}, [1, 2]]],
    "shared_embedded": [["in", {"dim": 2}, []], ["dense", {"u": 2, "act": "tanh"}, [0]], ["again", {"of": 1}, [1]], ["merge", {"m": "Maximum"}, [1, 2]], ["again", {"of": 1}, [3]]],
    "shared_act": [["in", {"dim": 2}, []], ["dense", {"u": 2}, [0]], ["act", {"f": "relu"}, [1]], ["dense", {"u": 2}, [2]], ["again", {"of": 2}, [3]]],
    "conv_acts": C(2, ("dense", {"u": 6}), ("reshape", {"t": [3, 2, 1]}), ("conv", {"f": 2, "k": [2, 1], "act": "tanh"}), ("conv", {"f": 1, "k": [1, 2], "act": "relu", "bias": False}), ("flatten",)),
    "dense_softmax": C(2, DR, ("dense", {"u": 3, "act": "softmax"})),
    "mid_softmax": C(2, ("dense", {"u": 3, "act": "softmax"}), D2),
    "dropout_bn": C(2, DR, ("dropout", {"r": 0.5}), ("bn", {}), DR),
    "relu_layer": C(2, D2, ("relu_layer",), DR),
}
MULTI = {"two": (C(2, DR, DR), [2, 1]), "three": (C(2, DR, ("dense", {"u": 1, "act": "sigmoid"})), [1, 2]), "nested_two": (C(2, ("sub", {"prog": C(2, DR, D2)}), DR), [1, 2])}


def tasks(tier):
    out = []
    for m in nets.MACROS:
        out.append({"id": m, "progs": [[m, nets.word_program((m,)), None]], "cost": 1})
        progs = [["%s+%s" % (m, k), nets.word_program((m, k)), None] for k in nets.MACROS]
        out.append({"id": m + "+*", "progs": progs, "cost": 6})
    out.append({"id": "special", "progs": [[k, v, None] for k, v in EXTRA.items()], "cost": 6})
    out.append({"id": "multi", "progs": [[k, v[0], v[1]] for k, v in MULTI.items()], "cost": 6})
    out.append({"id": "tf-special", "progs": [[k, v, None] for k, v in EXTRA.items()], "backend": "tensorflow", "cost": 4})
    out.append({"id": "prelu", "layers": 1, "cost": 1})
    out.append({"id": "samename", "layers": 2, "cost": 1})
    out.append({"id": "seq", "layers": 3, "cost": 1})
    out += [{"id": "options/%s" % o, "options": o, "cost": 2} for o in OPTIONS]
    if tier == "thorough":
        for w in itertools.product(["dense_tanh", "nested", "shared_layer", "res_max", "conv"], repeat=3):
            out.append({"id": "+".join(w), "progs": [["+".join(w), nets.word_program(w), None]], "cost": 1})
    return out


# layers embedding an activation, with their options: (shape of the input, layer)
OPTIONS = {
    "dense-nobias": ((3,), "Dense", dict(units=2, use_bias=False)),
    "dense-matrix": ((2, 3), "Dense", dict(units=2)),
    "conv-stride": ((4, 4, 2), "Conv2D", dict(filters=2, kernel_size=2, strides=(2, 1))),
    "conv-dilated": ((4, 4, 1), "Conv2D", dict(filters=2, kernel_size=2, dilation_rate=(2, 1), padding="same")),
    "conv-groups": ((3, 3, 4), "Conv2D", dict(filters=4, kernel_size=2, groups=2, use_bias=False)),
    "conv-first": ((2, 3, 4), "Conv2D", dict(filters=3, kernel_size=(2, 1), data_format="channels_first")),
    "conv1d": ((4, 2), "Conv1D", dict(filters=2, kernel_size=2, padding="causal", dilation_rate=2)),
    "conv1d-first": ((2, 4), "Conv1D", dict(filters=3, kernel_size=2, strides=2, data_format="channels_first")),
    "conv3d": ((2, 2, 3, 1), "Conv3D", dict(filters=2, kernel_size=(1, 2, 2), padding="same")),
    "depthwise": ((3, 4, 2), "DepthwiseConv2D", dict(kernel_size=2, depth_multiplier=2, strides=1, padding="same")),
    "separable": ((3, 4, 2), "SeparableConv2D", dict(filters=3, kernel_size=2, depth_multiplier=2)),
    "transpose": ((2, 3, 2), "Conv2DTranspose", dict(filters=3, kernel_size=2, strides=2, padding="same")),
    "einsum": ((2, 3), "EinsumDense", dict(equation="abc,cd->abd", output_shape=(None, 2), bias_axes="d")),
    "einsum-nobias": ((2, 3), "EinsumDense", dict(equation="abc,bd->acd", output_shape=(3, 2))),
}
ACTS = ("relu", "tanh", "softmax", "elu", "softplus", "exponential")


def explore_options(task, res):
    """every option of every layer embedding an activation survives the separation, so do its weights"""
    import keras
    from decomon.models.convert import preprocess_keras_model, split_activations_in_keras_model

    shape, cls, kw = OPTIONS[task["options"]]
    n = int(np.prod(shape))
    lat = np.array([-1.0, 0.5, 0.0, 1.0, -0.25, 2.0, -1.5])
    # every vector of the canonical basis, both signs, and mixed ones
    X = np.concatenate([np.eye(n), -np.eye(n)] + [np.take(lat, (np.arange(n) * a + b) % 7)[None] for a in (1, 2, 3) for b in range(7)]).astype(np.float32).reshape((-1,) + shape)
    for act in ACTS:
        for place in ("alone", "shared", "nested", "seq"):
            layer = getattr(keras.layers, cls)(activation=act, **kw)
            i = keras.Input(shape)
            if place == "nested":
                j = keras.Input(shape)
                y = keras.Model(j, keras.layers.Flatten()(layer(j)))(i)
            elif place == "seq":
                y = keras.Sequential([keras.Input(shape), layer, keras.layers.Flatten()])(i)
            elif place == "shared":
                y = keras.layers.Subtract()([keras.layers.Flatten()(layer(i)), keras.layers.Flatten()(layer(keras.layers.Activation("tanh")(i)))])
            else:
                y = keras.layers.Flatten()(layer(i))
            model = keras.Model(i, y)
            model.set_weights(nets.pattern_weights(model, 0))
            for fn, f in (("split", split_activations_in_keras_model), ("preprocess", preprocess_keras_model)):
                key = "%s/%s/%s/%s" % (task["options"], act, place, fn)
                if fn == "split" and place in ("nested", "seq"):
                    continue
                F = nets.predict(model, X)
                new = f(model)
                same(res, key + "/values", nets.predict(new, X), F)
                model.set_weights(nets.pattern_weights(model, 1))
                same(res, key + "/updated", nets.predict(new, X), nets.predict(model, X))
                if {id(v) for v in new.weights} != {id(v) for v in model.weights}:
                    res.violation(key + "/weights", "the variables of the preprocessed network are not those of the network")
                for l in new.layers:
                    if isinstance(l, keras.Model) or (not isinstance(l, keras.layers.Activation) and l.get_config().get("activation") not in (None, "linear")):
                        res.violation(key + "/activation", "%s is nested or still embeds its activation" % l.name)
                res.states += 2
                res.transitions += 2 * len(X)
                res.traces += 1
            res.outcome(F)
    res.sample({"layer": cls, "options": {a: str(b) for a, b in kw.items()}, "inputs": len(X)})


def special(k):
    import keras
    from keras.layers import Activation, Dense, Input, PReLU

    if k == 1:
        i = Input((2,))
        return keras.Model(i, Dense(2)(Dense(3, activation=PReLU())(i)))
    if k == 2:
        a = Input((2,))
        inner = keras.Model(a, Dense(2, activation="relu", name="hidden")(Dense(2, name="first")(a)))
        i = Input((2,))
        return keras.Model(i, Dense(2, name="hidden")(inner(Dense(2, activation="tanh", name="first")(i))))
    m = keras.Sequential([Input((2,)), Dense(3, activation="relu"), Activation("tanh"), keras.Sequential([Input((3,)), Dense(2, activation="sigmoid")]), Dense(1)])
    return m


def leaves(m):
    import keras

    for l in m.layers:
        if isinstance(l, keras.Model):
            yield from leaves(l)
        else:
            yield l


def run_task(task, res):
    import keras
    from decomon.models.convert import preprocess_keras_model, split_activations_in_keras_model

    from mc import common

    if "options" in task:
        return explore_options(task, res)
    X = common.points([-2.0, -1.0, -0.5, 0.0, 0.25, 1.0, 2.0], 2)
    for name, prog, outs in [("layers", None, None)] if "layers" in task else task["progs"]:
        for fn in ("preprocess", "split", "twice"):
            model = special(task["layers"]) if prog is None else nets.build(prog, outputs=outs)
            model.set_weights(nets.pattern_weights(model, 0))
            key = "%s/%s" % (name, fn)
            F = nets.predict(model, X)
            f = split_activations_in_keras_model if fn == "split" else preprocess_keras_model
            new = f(model)
            if fn == "twice":
                new = f(new)
            same(res, key + "/values", nets.predict(new, X), F)
            same(res, key + "/original", nets.predict(model, X), F)
            # the weights are shared: an update of the original network is seen
            for k in (1, 2):
                model.set_weights(nets.pattern_weights(model, k))
                same(res, key + "/w%d" % k, nets.predict(new, X), nets.predict(model, X))
                res.states += 1
                res.transitions += 2 * len(X)
            if len(new.inputs) != len(model.inputs) or len(new.outputs) != len(model.outputs) or [tuple(o.shape) for o in new.outputs] != [tuple(o.shape) for o in model.outputs]:
                res.violation(key + "/signature", "inputs or outputs differ: %s / %s" % (new.outputs, model.outputs))
            for l in new.layers:
                act = l.get_config().get("activation")
                if isinstance(l, keras.Model):
                    res.violation(key + "/nested", "%s is still nested" % l.name)
                if not isinstance(l, keras.layers.Activation) and act not in (None, "linear"):
                    res.violation(key + "/activation", "%s still embeds its activation %s" % (l.name, act))
            if len({id(v) for v in new.weights}) != len(new.weights) or {id(v) for v in new.weights} != {id(v) for v in model.weights}:
                res.violation(key + "/weights", "the variables of the preprocessed network are not those of the network")
            res.traces += 1
        res.sample({"program": prog, "outputs": outs})
        res.outcome(F[0] if isinstance(F, list) else F)


def same(res, key, a, b):
    a, b = [x if isinstance(x, list) else [x] for x in (a, b)]
    for i, (x, y) in enumerate(zip(a, b)):
        if x.shape != y.shape or np.abs(x - y).max() > 1e-5 * (1 + np.abs(y).max()):
            res.violation(key, "output %d differs by %s" % (i, np.abs(x - y).max() if x.shape == y.shape else (x.shape, y.shape)))

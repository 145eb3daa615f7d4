"""C17: every layer of the converted networks against the twin rebuilt from its configuration, on the bounds it receives."""
import copy
import enum

import numpy as np

from mc import common, nets

BOUNDS = (
    "all words of length 1 over the layer alphabet x every method supporting them x {box, l2 ball, l1 ball, linf ball} x 5 slopes (those of the word's "
    "activations; quick tier: all of them for 9 words) x fine-tuning x constant/affine final bounds, the options of 16 forward and 14 backward layer classes, 6 metric and loss layers x modes x domains; every decomon layer of the converted networks x all the bounds it "
    "receives on the lattice of domains"
)
ASSUMPTIONS = [
    "the weights of a rebuilt layer, which are not part of its configuration, are copied from the original one (from the wrapped one for the backward layers)",
    "configurations are not serialized to text: enumerations and domains are kept as objects",
]
ORACLE = "the layer the configuration comes from, differential on the bounds it receives in the converted network."
DOMAINS = {"box": None, "l2": (0.75, 2), "l1": (1.0, 1), "linf": (0.5, np.inf)}
RICH = ["dense_relu", "relu", "sigmoid", "softplus", "res_max", "maxpool", "conv_same", "bn", "res_add"]


def tasks(tier):
    out = []
    for i, m in enumerate(nets.MACROS):
        for j, me in enumerate(nets.METHODS):
            if not nets.supported((m,), me):
                continue
            confs = [{"dom": "box"}, {"dom": ("l2", "l1", "linf")[(i + j) % 3], "finals": [True, True]}]
            if tier == "thorough":
                confs = [{"dom": d, "finals": f} for d in DOMAINS for f in (None, [True, True], [True, False], [False, True])]
            if m in RICH or tier == "thorough":
                confs += [{"dom": "box", "kw": {"slope": s}} for s in nets.SLOPES[1:] if nets.supported((m,), me, s)]
                confs += [{"dom": d, "kw": {"finetune": True}, "alpha": True} for d in ("box", "l2")]
                confs += [{"dom": "box", "finals": f} for f in ([False, True], [True, False])]
                confs += [{"dom": "box", "kw": {"shared": False}}]
            out.append({"id": "%s/%s" % (m, me), "kind": "model", "word": [m], "method": me, "confs": confs, "cost": len(confs)})
    for me in nets.METHODS:
        for dom in DOMAINS:
            out.append({"id": "metrics/%s/%s" % (me, dom), "kind": "metrics", "method": me, "dom": dom, "cost": 3})
    out.append({"id": "options", "kind": "options", "cost": 2})
    return out


def run_task(task, res):
    globals()["run_" + task["kind"]](task, res)


def plain(v):
    """comparable form of a configuration"""
    if isinstance(v, enum.Enum):
        return v.value
    if isinstance(v, dict):
        return {k: plain(w) for k, w in v.items() if k not in ("shared_object_id", "build_config")}
    if isinstance(v, (list, tuple)):
        return [plain(w) for w in v]
    if isinstance(v, (str, int, float, bool, type(None))):
        return v if not isinstance(v, str) else str(v)
    if hasattr(v, "get_config"):
        return [type(v).__name__, plain(v.get_config())]
    return str(v)


def rebuild(layer):
    """the configuration of a layer and the twin rebuilt from it"""
    cfg = layer.get_config()
    kept = {k: plain(v) for k, v in cfg.items()}  # from_config may modify it
    for w in wrapped(layer):
        cfg["layer"] = copy.deepcopy(cfg["layer"])
        cfg["layer"].pop("build_config", None)  # built when its weights are given
    return kept, type(layer).from_config(cfg)


def give_weights(layer, twin, inputs):
    """build the twin like the original, with the same weights"""
    from decomon.layers.core import DecomonLayer

    for new, old in zip(wrapped(twin), wrapped(layer)):
        if new is old or new._inbound_nodes or not old._inbound_nodes:
            continue
        give_weights(old, new, old._inbound_nodes[0].arguments.args[0])
    if isinstance(layer, DecomonLayer) and layer.shared and layer.weights:
        twin.share_weights(layer)
    twin(inputs)
    a, b = twin.get_weights(), layer.get_weights()
    if len(a) == len(b):
        twin.set_weights(b)
    elif a or not getattr(layer, "shared", False):
        raise ValueError("%d weights instead of %d" % (len(a), len(b)))


def wrapped(layer):
    l = getattr(layer, "layer", None)
    return [] if l is None else [l]


def run_model(task, res):
    import keras
    import keras.ops as K
    from decomon.core import BallDomain
    from decomon.models import clone

    z = {"box": common.boxes([-1.0, 0.0, 0.75], 2)}
    for d in ("l1", "l2", "linf"):
        z[d] = common.points([-1.0, 0.0, 0.75], 2)
    for ci, conf in enumerate(task["confs"]):
        dom = DOMAINS[conf["dom"]]
        kw = dict(conf.get("kw", {}))
        if dom is not None:
            kw["perturbation_domain"] = BallDomain(eps=dom[0], p=dom[1])
        if conf.get("finals"):
            kw["final_ibp"], kw["final_affine"] = conf["finals"]
        model = nets.build(nets.word_program(task["word"]))
        model.set_weights(nets.pattern_weights(model, ci % 3))
        d = clone(model, method=task["method"], **kw)
        if conf.get("alpha"):
            for i, w in enumerate(d.trainable_weights):
                if any(s in w.name for s in ("alpha", "beta")):
                    w.assign(np.clip(0.25 + 0.5 * np.sin(i + np.arange(int(np.prod(w.shape)))).reshape(w.shape), 0, 1))
        Z = z[conf["dom"]]
        key0 = ",".join("%s=%s" % (a, conf["kw"][a]) for a in sorted(conf.get("kw", {}))) + "/" + conf["dom"] + "/" + str(conf.get("finals"))
        layers = [l for l in d.layers if type(l).__module__.startswith("decomon.") and not isinstance(l, keras.layers.InputLayer)]
        sym = []
        for l in layers:
            node = l._inbound_nodes[-1]
            sym.append(list(node.input_tensors))
        probe = keras.Model(d.inputs, [t for s in sym for t in s])
        vals = probe(K.convert_to_tensor(Z))
        vals = list(vals) if isinstance(vals, (list, tuple)) else [vals]
        i = 0
        for l, s in zip(layers, sym):
            v = vals[i : i + len(s)]
            i += len(s)
            one = len(s) == 1 and not isinstance(l._inbound_nodes[-1].arguments.args[0], (list, tuple))
            arg = v[0] if one else v
            check_twin(res, "%s/%s" % (key0, type(l).__name__), l, arg, s[0] if one else s)
            res.states += 1
            res.transitions += len(Z)
            res.count("layer:" + type(l).__name__)
        res.traces += 1
    res.sample({"word": task["word"], "method": task["method"], "layers": [type(l).__name__ for l in layers]})


def flat(y):
    y = y if isinstance(y, (list, tuple)) else [y]
    out = []
    for e in y:
        out += flat(e) if isinstance(e, (list, tuple)) else [np.asarray(common.to_np(e), np.float64)]
    return out


def check_twin(res, key, layer, arg, symbolic=None):
    want = flat(layer(arg))
    try:
        cfg, twin = rebuild(layer)
    except Exception as e:
        res.violation(key + ":from_config", "the configuration does not rebuild a layer: %s: %s" % (type(e).__name__, str(e)[:300]))
        return
    try:
        again = twin.get_config()
    except Exception as e:
        res.violation(key + ":get_config", "no configuration for the rebuilt layer: %s" % e)
        return
    a, b = cfg, plain(again)
    if a != b:
        res.violation(key + ":config", "the rebuilt layer has another configuration: %s" % [(k, a.get(k), b.get(k)) for k in set(a) | set(b) if a.get(k) != b.get(k)][:4])
    try:
        give_weights(layer, twin, arg if symbolic is None else symbolic)
        got = flat(twin(arg))
    except Exception as e:
        res.violation(key + ":call", "the rebuilt layer does not run: %s: %s" % (type(e).__name__, str(e)[:300]))
        return
    if len(got) != len(want) or any(x.shape != y.shape for x, y in zip(got, want)):
        res.violation(key + ":shape", "the rebuilt layer returns %s instead of %s" % ([x.shape for x in got], [y.shape for y in want]))
        return
    for j, (x, y) in enumerate(zip(got, want)):
        if not x.size:
            continue
        e = np.abs(x - y) / (1 + np.abs(y))
        if not (e[np.isfinite(y)] <= 1e-5).all():
            res.violation(key + ":bounds", "output %d of the rebuilt layer differs by %.4g" % (j, e.max()))
            return
    res.outcome(want[-1])


def run_metrics(task, res):
    import keras.ops as K
    from decomon import get_model
    from decomon.core import BallDomain, BoxDomain, get_mode
    from decomon.metrics.loss import DecomonLossFusion, DecomonRadiusRobust
    from decomon.metrics.metric import AdversarialCheck, AdversarialScore, UpperScore
    from decomon.models import clone

    dom = DOMAINS[task["dom"]]
    D = BoxDomain() if dom is None else BallDomain(eps=dom[0], p=dom[1])
    Z = common.boxes([-1.0, 0.0, 0.75], 2) if dom is None else common.points([-1.0, 0.0, 0.75], 2)
    model = nets.build(nets.chain(2, ("dense", {"u": 3, "act": "relu"}), ("dense", {"u": 3})))
    for k, (fi, fa) in enumerate(((True, False), (False, True), (True, True))):
        model.set_weights(nets.pattern_weights(model, k))
        d = clone(model, method=task["method"], perturbation_domain=D, final_ibp=fi, final_affine=fa)
        out = [K.convert_to_tensor(t) for t in d.predict_on_single_batch_np(Z)]
        Y = K.convert_to_tensor(np.eye(3, dtype=np.float32)[np.arange(len(Z)) % 3])
        for cls in (AdversarialCheck, AdversarialScore, UpperScore):
            check_twin(res, "%s-%s/%s" % (fi, fa, cls.__name__), cls(ibp=fi, affine=fa, mode="forward", perturbation_domain=D), [Y, K.convert_to_tensor(Z)] + (out[1:] if fa else out) + [Y])
            res.states += 1
            res.transitions += len(Z)
        for asym in (False, True):
            check_twin(res, "%s-%s/fusion-%s" % (fi, fa, asym), DecomonLossFusion(mode=get_mode(fi, fa), asymptotic=asym, perturbation_domain=D), out)
            res.states += 1
            res.transitions += len(Z)
        if fa and dom is None:
            check_twin(res, "%s-%s/radius" % (fi, fa), DecomonRadiusRobust(mode=get_mode(fi, fa), perturbation_domain=D), out)
            res.states += 1
            res.transitions += len(Z)
    res.traces += 1
    res.sample({"metrics": task["id"]})


def run_options(task, res):
    """configurations of layers which have not been built, option by option, and of the domains"""
    import itertools

    from decomon.core import BallDomain, BoxDomain
    from decomon.layers import decomon_layers as dl
    from decomon.layers import decomon_merge_layers as ml
    from decomon.layers import decomon_reshape as rl
    from decomon.layers.maxpooling import DecomonMaxPooling2D

    own = {
        dl.DecomonDense: [{"units": 2}, {"units": 3, "use_bias": False}],
        dl.DecomonConv2D: [{"filters": 2, "kernel_size": (2, 1), "strides": (1, 2), "padding": "same"}, {"filters": 1, "kernel_size": 3, "dilation_rate": 2, "data_format": "channels_first"}],
        dl.DecomonActivation: [{"activation": a} for a in ("relu", "sigmoid", "tanh", "softplus", "softsign", "exponential", "linear")],
        dl.DecomonFlatten: [{}, {"data_format": "channels_first"}],
        dl.DecomonBatchNormalization: [{"axis": 1}, {"epsilon": 0.25, "center": False}],
        dl.DecomonDropout: [{"rate": 0.25}],
        rl.DecomonReshape: [{"target_shape": (2, 3)}],
        rl.DecomonPermute: [{"dims": (2, 1)}],
        DecomonMaxPooling2D: [{"pool_size": (2, 1), "strides": (1, 1), "padding": "same"}],
        ml.DecomonConcatenate: [{"axis": 1}, {"axis": -2}],
        ml.DecomonAdd: [{}],
        ml.DecomonAverage: [{}],
        ml.DecomonSubtract: [{}],
        ml.DecomonMaximum: [{}],
        ml.DecomonMinimum: [{}],
        ml.DecomonMultiply: [{}],
    }
    doms = [BoxDomain(), BallDomain(eps=0.5, p=1), BallDomain(eps=0.25, p=2), BallDomain(eps=2, p=np.inf)]
    for cls, confs in own.items():
        for conf, mode, dom, shared, ft, slope, fast in itertools.product(confs, ("ibp", "affine", "hybrid"), doms, (False, True), (False, True), nets.SLOPES, (False, True)):
            kw = dict(conf, mode=mode, perturbation_domain=dom, shared=shared, finetune=ft, fast=fast)
            if cls is dl.DecomonActivation:
                kw["slope"] = slope
            elif slope != nets.SLOPES[0]:
                continue
            key = "%s/%s" % (cls.__name__, sorted((k, str(plain(v))) for k, v in kw.items()))
            l = cls(**kw)
            cfg = l.get_config()
            t = type(l).from_config(cfg)
            a, b = plain(cfg), plain(t.get_config())
            if a != b:
                res.violation(key + ":config", "the rebuilt layer has another configuration")
            for k, v in kw.items():
                if k in cfg and str(plain(cfg[k])) != str(plain(v)) and not (isinstance(v, (int, tuple)) and k in ("kernel_size", "dilation_rate", "strides", "axis")):
                    res.violation(key + ":" + k, "the configuration has %s=%s instead of %s" % (k, cfg[k], v))
            for k in ("mode", "perturbation_domain", "shared", "finetune", "fast", "dc_decomp", "slope"):
                if hasattr(l, k) and str(plain(getattr(l, k))) != str(plain(getattr(t, k))):
                    res.violation(key + ":attr-" + k, "the rebuilt layer has %s=%s instead of %s" % (k, getattr(t, k), getattr(l, k)))
            res.states += 1
            res.transitions += 1
    # backward layers around keras and decomon layers
    import decomon.backward_layers.backward_layers as bl
    import decomon.backward_layers.backward_merge as bm
    from decomon.layers.core import DecomonLayer
    from keras import layers as L

    def around(mode, dom):
        yield bl.BackwardDense, lambda: L.Dense(2)
        yield bl.BackwardConv2D, lambda: L.Conv2D(2, 2)
        yield bl.BackwardFlatten, lambda: L.Flatten()
        yield bl.BackwardReshape, lambda: L.Reshape((2, 1))
        yield bl.BackwardPermute, lambda: L.Permute((2, 1))
        yield bl.BackwardBatchNormalization, lambda: L.BatchNormalization(axis=1)
        for a in ("relu", "sigmoid", "softplus", "linear"):
            yield bl.BackwardActivation, lambda a=a: L.Activation(a)
        for n in ("Add", "Average", "Subtract", "Maximum", "Minimum", "Concatenate", "Multiply"):
            if n in ("Add", "Average"):
                yield getattr(bm, "Backward" + n), lambda n=n: getattr(L, n)()
            yield getattr(bm, "Backward" + n), lambda n=n: getattr(ml, "Decomon" + n)(mode=mode, perturbation_domain=dom)
        yield bl.BackwardDense, lambda: dl.DecomonDense(2, mode=mode, perturbation_domain=dom)
        yield bl.BackwardActivation, lambda: dl.DecomonActivation("relu", mode=mode, perturbation_domain=dom, slope="one-lb")

    for mode, dom in itertools.product(("ibp", "affine", "hybrid"), doms):
        for cls, mk in around(mode, dom):
            for slope, ft, rec in itertools.product(nets.SLOPES if cls is bl.BackwardActivation else nets.SLOPES[:1], (False, True), (1, 2)):
                kw = dict(mode=mode, perturbation_domain=dom, rec=rec)
                if cls is bl.BackwardActivation:
                    kw.update(slope=slope, finetune=ft)
                inner = mk()
                if not isinstance(inner, DecomonLayer):
                    merge = "Backward" + type(inner).__name__ in dir(bm)
                    inner([L.Input((2,)), L.Input((2,))] if merge else L.Input((3, 3, 1) if isinstance(inner, L.Conv2D) else (2, 2) if isinstance(inner, L.Permute) else (2,)))
                l = cls(inner, **kw)
                key = "%s(%s)/%s" % (cls.__name__, type(l.layer).__name__, sorted((k, str(plain(v))) for k, v in kw.items()))
                kept, t = rebuild(l)
                if kept != plain(t.get_config()):
                    res.violation(key + ":config", "the rebuilt layer has another configuration")
                for k in list(kw) + ["dc_decomp"]:
                    for o in (l, t) if k in kw else (t,):
                        if str(plain(getattr(o, k))) != str(plain(kw[k] if k in kw else getattr(l, k))):
                            res.violation(key + ":attr-" + k, "the layer has %s=%s" % (k, plain(getattr(o, k))))
                res.states += 1
                res.transitions += 1
    from decomon.models.crown import MergeWithPrevious

    for a, b in itertools.product((None, (None, 2, 3), (None, 1, 4)), (None, (None, 3, 2), (None, 4, 4))):
        if a and b and a[2] != b[1]:
            continue
        l = MergeWithPrevious(a, b)
        t = MergeWithPrevious.from_config(l.get_config())
        for o in (l, t):
            if (o.input_shape_layer, o.backward_shape_layer) != (a, b) or str(o.input_spec) != str(l.input_spec):
                res.violation("MergeWithPrevious/%s/%s" % (a, b), "the layer has the shapes %s and %s" % (o.input_shape_layer, o.backward_shape_layer))
        res.states += 1
        res.transitions += 1
    for dom in doms:
        t = type(dom).from_config(dom.get_config()) if hasattr(type(dom), "from_config") else type(dom)(**dom.get_config())
        if plain(t.get_config()) != plain(dom.get_config()) or type(t) is not type(dom):
            res.violation("domain/%s" % dom.get_config(), "the rebuilt domain differs")
        res.states += 1
        res.transitions += 1
    res.traces += 1
    res.outcome(np.arange(3))
    res.sample({"classes": [c.__name__ for c in own]})

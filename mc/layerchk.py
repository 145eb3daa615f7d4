"""Layer-level abstract transformer checks: build one keras layer, convert it, feed it every
enumerated abstract element, compare with the layer itself on every enumerated concrete value."""
import numpy as np

from mc import absel, nets
from mc.common import to_np


def make(op, args, shapes, pattern=0, values=None):
    """built keras layer (called on symbolic inputs, weights from the lattice)"""
    import keras
    from keras.layers import Input

    layer = nets.make_layer(op, args)
    ins = [Input(tuple(s)) for s in shapes]
    out = layer(ins if len(ins) > 1 else ins[0])
    m = keras.Model(ins, out)
    if m.weights:
        m.set_weights(nets.pattern_weights(m, pattern) if values is None else nets.pattern_weights(m, pattern, values))
    return layer, m


def exact(model, shapes, Y):
    """values of the layer on Y (..., n)"""
    lead = Y.shape[:-1]
    Yf = Y.reshape(-1, Y.shape[-1]).astype(np.float32)
    xs, i = [], 0
    for s in shapes:
        m = int(np.prod(s))
        xs.append(Yf[:, i : i + m].reshape((-1,) + tuple(s)))
        i += m
    F = to_np(model(xs if len(xs) > 1 else xs[0], training=False))
    return F.reshape(lead + (-1,))


def element(shapes, how="product", **kw):
    n = int(sum(np.prod(s) for s in shapes))
    return absel.Elem(n, **kw)


def forward(res, key, op, args, shapes, el, mode, how="product", pattern=0, slope="volume-slope", finetune=False, fast=True, shared=True, tol=None):
    from decomon.layers.convert import to_decomon

    layer, model = make(op, args, shapes, pattern)
    dom = absel.make_domain(el.dom)
    d = to_decomon(layer, el.d, slope=slope, perturbation_domain=dom, finetune=finetune, ibp=mode != "affine", affine=mode != "ibp", fast=fast, shared=shared)
    out = d(absel.tensors(el.inputs(mode, shapes)))
    Y, ok = el.values(mode, how)
    F = exact(model, shapes, Y)
    zs = [np.zeros((1,) + tuple(s), np.float32) for s in shapes]
    osh = tuple(model(zs if len(zs) > 1 else zs[0], training=False).shape[1:])  # (symbolic shapes are wrong for some strides on torch)
    got = [tuple(t.shape[1:]) for t in out]
    want = {"ibp": [osh, osh], "affine": [None, (el.d,) + osh, osh, (el.d,) + osh, osh], "hybrid": [None, osh, (el.d,) + osh, osh, osh, (el.d,) + osh, osh]}[mode]
    if len(got) != len(want) or any(w is not None and g != w for g, w in zip(got, want)):
        res.violation(key + ":output-shape", "%s: outputs of shapes %s, expected %s" % (key, got, want))
    absel.check_forward(res, key, out, mode, el, Y, ok, F, tol=tol)
    return d


def backward(res, key, op, args, shapes, el, mode, how="product", pattern=0, slope="volume-slope", finetune=False, from_decomon=False, tol=None):
    from decomon.backward_layers.convert import to_backward
    from decomon.layers.convert import to_decomon

    layer, model = make(op, args, shapes, pattern)
    dom = absel.make_domain(el.dom)
    src = layer
    if from_decomon:
        src = to_decomon(layer, el.d, slope=slope, perturbation_domain=dom, finetune=finetune, ibp=mode != "affine", affine=mode != "ibp")
    b = to_backward(src, slope=slope, mode=mode, perturbation_domain=dom, finetune=finetune)
    out = b(absel.tensors(el.inputs(mode, shapes)))
    Y, ok = el.values(mode, how)
    F = exact(model, shapes, Y)
    if len(shapes) == 1:
        absel.check_backward(res, key, out, el, Y, ok, F, tol=tol)
    return b, out, Y, ok, F

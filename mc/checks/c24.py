"""C24: difference-of-convex decompositions through the layers and functions that propagate them."""
import itertools

from mc import absel

BOUNDS = (
    "layers propagating a decomposition (dense, convolution, flatten, reshape, permute, dropout, precise max pooling, relu and "
    "linear activations) over a grid of configurations x 2 weight patterns, and the functions add, subtract, minus, maximum, minimum, relu_ and "
    "max_ x every axis; x 3 modes x 4 kinds of domain; for every compatible concrete value (all corners up to 4 values, selected corners "
    "above) 5 decompositions h+g of it (h = 0, g = 0, and 3 mixed sign patterns), and two middle points of pairs of them: the middle value, and another compatible value"
)
ASSUMPTIONS = [
    "elements, weights, values and decompositions restricted to the stated lattices",
    "layers refusing to propagate a decomposition (NotImplementedError) satisfy the property; the list of those that accept is fixed, so a layer that starts to refuse is reported",
]
ORACLE = (
    "keras' layer (or numpy) on y = h + g: the outputs h', g' must sum to the layer's output; and for decompositions (h0,g0), (h1,g1) of two values "
    "and a middle one with h <= (h0+h1)/2 and g >= (g0+g1)/2, h' and g' must satisfy the same inequalities (h' stays convex, g' concave)."
)


def configs():
    c = []
    for u, b in itertools.product((1, 3), (True, False)):
        c.append(("dense", {"u": u, "bias": b}, (3,)))
    c.append(("dense", {"u": 2}, (2, 2)))
    for k, s, p in itertools.product(([1, 2], [2, 2]), (1, 2, [2, 1]), ("valid", "same")):
        c.append(("conv", {"f": 2, "k": k, "s": s, "p": p}, (3, 2, 1)))
    c.append(("conv", {"f": 2, "k": [2, 2], "bias": False}, (2, 2, 2)))
    c.append(("conv", {"f": 2, "k": [2, 1], "df": "channels_first"}, (1, 3, 2)))
    c.append(("conv", {"f": 1, "k": [2, 2], "dil": [2, 1]}, (3, 2, 1)))
    c += [("flatten", {}, (2, 2)), ("flatten", {"df": "channels_first"}, (2, 2, 1)), ("reshape", {"t": [2, 2]}, (4,)), ("reshape", {"t": [-1]}, (2, 2)), ("permute", {"d": [2, 1]}, (2, 2)), ("permute", {"d": [3, 1, 2]}, (2, 1, 2)), ("dropout", {"r": 0.5}, (3,))]
    for k, s, p in itertools.product(([2, 2], [1, 2], [2, 1]), (None, 1), ("valid", "same")):
        c.append(("maxpool", {"k": k, "s": s, "p": p}, (3, 2, 1)))
    c.append(("maxpool", {"k": [2, 2], "s": 1, "p": "same"}, (2, 2, 2)))
    c.append(("maxpool", {"k": [2, 1], "df": "channels_first"}, (2, 2, 2)))
    for f in ("relu", "linear"):
        c += [("act", {"f": f}, (3,)), ("act", {"f": f}, (2, 2))]
    return c


def functions():
    import numpy as np

    from decomon import utils as du
    from decomon.layers import utils as lu

    two = [(2,), (2,)]
    s = {
        "add": (lambda a, k: du.add(a[0], a[1], **k), lambda a: a[0] + a[1], two),
        "subtract": (lambda a, k: du.subtract(a[0], a[1], **k), lambda a: a[0] - a[1], two),
        "maximum": (lambda a, k: du.maximum(a[0], a[1], **k), lambda a: np.maximum(*a), two),
        "minimum": (lambda a, k: du.minimum(a[0], a[1], **k), lambda a: np.minimum(*a), two),
        "minus": (lambda a, k: du.minus(a[0], **k), lambda a: -a[0], [(3,)]),
    }
    for sl in ("volume-slope", "same-slope", "zero-lb"):
        s["relu/" + sl] = (lambda a, k, sl=sl: du.relu_(a[0], slope=sl, **k), lambda a: np.maximum(a[0], 0), [(3,)])
    for ax in (1, 2, -1, -2):
        s["max/%d" % ax] = (lambda a, k, ax=ax: lu.max_(a[0], axis=ax, **k), lambda a, A=(ax if ax < 0 else ax): a[0].max(A), [(2, 2)])
    return s


FUN = ["add", "subtract", "maximum", "minimum", "minus", "relu/volume-slope", "relu/same-slope", "relu/zero-lb", "max/1", "max/2", "max/-1", "max/-2"]
REFUSING = [("relu_layer", {}, (3,)), ("bn", {}, (3,)), ("maxpool", {"k": [2, 2]}, (2, 2, 1)), ("act", {"f": "sigmoid"}, (3,)), ("act", {"f": "tanh"}, (3,)), ("act", {"f": "softsign"}, (3,)), ("act", {"f": "softplus"}, (3,)), ("act", {"f": "exponential"}, (3,)), ("act", {"f": "softmax"}, (3,)), ("merge", {"m": "Add"}, (3,)), ("merge", {"m": "Maximum"}, (3,)), ("merge", {"m": "Concatenate"}, (3,)), ("merge", {"m": "Multiply"}, (3,)), ("merge", {"m": "Average"}, (3,)), ("merge", {"m": "Subtract"}, (3,)), ("merge", {"m": "Minimum"}, (3,))]


def name(op, a, sh):
    return "%s[%s]%s" % (op, ",".join("%s=%s" % (k, v) for k, v in sorted(a.items())), list(sh))


def tasks(tier):
    out = []
    for i, (op, a, sh) in enumerate(configs()):
        out.append({"id": name(op, a, sh), "op": op, "args": a, "shape": list(sh), "doms": absel.DOMS if (tier == "thorough" or i % 3 == 0) else ["box", "l2"], "tier": tier, "cost": 1})
    for i, f in enumerate(FUN):
        out.append({"id": "fn/" + f, "fn": f, "doms": absel.DOMS, "tier": tier, "cost": 1})
    for op, a, sh in configs()[::5]:
        if a.get("df") != "channels_first":
            out.append({"id": "tf/" + name(op, a, sh), "op": op, "args": a, "shape": list(sh), "doms": ["box"], "tier": "quick", "backend": "tensorflow", "cost": 2})
    for op, a, sh in REFUSING:
        out.append({"id": "other/" + name(op, a, sh), "other": True, "op": op, "args": a, "shape": list(sh), "doms": ["box"], "tier": "quick", "cost": 1})
    return out


def run_task(task, res):
    import numpy as np

    from mc import layerchk as lc
    from mc.common import to_np

    q = task["tier"] == "quick"
    if "fn" in task:
        f, ex, shapes = functions()[task["fn"]]
    else:
        shapes = [tuple(task["shape"])] * (2 if task["op"] == "merge" else 1)
    n = int(sum(np.prod(s) for s in shapes))
    sizes = [int(np.prod(s)) for s in shapes]
    for dom in task["doms"]:
        el = absel.Elem(n, dom=dom, patterns=(1, 3) if q else (0, 1, 2, 3, 4, 5), placements=("raw", "l0", "u0", "mid") if n <= 4 else ("raw", "mid"), cuts=("exact", "loose") if q else ("exact", "loose", "cut"))
        d = absel.make_domain(dom)
        for mode in absel.MODES:
            Y, ok = el.values(mode, "product")
            if not q:
                T = np.arange(Y.shape[2])
            elif n <= 4:
                T = np.arange(Y.shape[2])
                Y, ok = Y[:, ::2], ok[:, ::2]
            else:  # selected corners
                T = np.unique(np.linspace(0, Y.shape[2] - 1, 14).astype(int))
                Y, ok = Y[:, ::4], ok[:, ::4]
            Y, ok = Y[:, :, T], ok[:, :, T]
            B, P, C = ok.shape
            j = np.arange(n)
            offs = [np.take(absel.LAT, (3 * j + 5 * k) % 8) * 2 for k in range(1, 4)]
            # decompositions of a value: h, g = y - h
            H = [np.zeros_like(Y), Y] + [0.5 * (k - 1) * Y + offs[k] for k in range(3)]
            ck = np.arange(C) % len(H)
            ck2 = (np.arange(C) + 1 + np.arange(C) // len(H)) % len(H)
            H0 = np.stack(H)[ck, :, :, np.arange(C)].transpose(1, 2, 0, 3)
            H1 = np.stack(H)[ck2, :, :, np.arange(C)].transpose(1, 2, 0, 3)
            Y1 = np.roll(Y, -1, 2)  # the other end of the segment: the next corner
            ok1 = np.roll(ok, -1, 2)
            H1 = np.roll(H1, -1, 2)
            dl = np.take(absel.GAP, (j + 1) % 5)
            Hm = (H0 + H1) / 2 - dl
            Ym = (Y + Y1) / 2
            # another value in the middle: h and -g are only convex along the segment
            Y2, ok2 = np.roll(Y, -2, 2), np.roll(ok, -2, 2)
            H2 = (H0 + H1) / 2 + np.minimum(0, Y2 - Ym) - np.take(absel.GAP, (j + 3) % 5)
            idx = np.argwhere(ok & ok1 & ok2)
            b, p, c = idx.T
            rows = np.concatenate([b, b, b, b])
            y = np.concatenate([Y[b, p, c], Y1[b, p, c], Ym[b, p, c], Y2[b, p, c]])
            h = np.concatenate([H0[b, p, c], H1[b, p, c], Hm[b, p, c], H2[b, p, c]]).astype(np.float32)
            g = (y - h).astype(np.float32)
            ins, i = [], 0
            base = el.inputs(mode, shapes)
            k = len(base) // len(shapes)
            for a, s in enumerate(shapes):
                part = [t[rows] for t in base[a * k : (a + 1) * k]]
                sl = slice(i, i + sizes[a])
                i += sizes[a]
                ins.append(part + [h[:, sl].reshape((-1,) + tuple(s)), g[:, sl].reshape((-1,) + tuple(s))])
            kw = dict(mode=mode, perturbation_domain=d, dc_decomp=True)
            N = len(b)
            for pat in range(1 if "fn" in task else (2 if q else 4)):
                key = "%s/%s/w%d" % (dom, mode, pat)
                if "fn" in task:
                    out = f([absel.tensors(t) for t in ins], kw)
                    args, i = [], 0
                    for a, s in enumerate(shapes):
                        args.append(y[:, i : i + sizes[a]].reshape((-1,) + tuple(s)))
                        i += sizes[a]
                    F = ex(args)
                else:
                    from decomon.layers.convert import to_decomon

                    layer, model = lc.make(task["op"], task["args"], shapes, pat)
                    try:
                        dl_ = to_decomon(layer, el.d, perturbation_domain=d, dc_decomp=True, ibp=mode != "affine", affine=mode != "ibp", fast=False if task["op"] == "maxpool" and not task.get("other") else True)
                        out = dl_(absel.tensors([t for part in ins for t in part]))
                    except NotImplementedError:
                        if not task.get("other"):
                            res.violation(key + ":refused", "%s no longer propagates the decomposition" % task["id"])
                        res.count("refused")
                        res.states += 1
                        res.outcome([hash(key) % 997])
                        continue
                    F = lc.exact(model, shapes, y)
                ho, go = [np.asarray(t, np.float64).reshape(len(y), -1) for t in to_np(out[-2:])]
                F = np.asarray(F, np.float64).reshape(len(y), -1)
                if ho.shape != F.shape or len(out) != {"ibp": 4, "affine": 7, "hybrid": 9}[mode]:
                    res.violation(key + ":shape", "%d outputs, components of shape %s for a layer output of shape %s" % (len(out), ho.shape, F.shape))
                    continue
                tol = 2e-5 + 1e-5 * max(np.abs(ho).max(), np.abs(go).max(), np.abs(F).max())

                def report(what, err, m):
                    r, o = np.unravel_index(int(np.argmax(err)), err.shape)
                    k = m + r
                    if not err[r, o] <= tol:
                        res.violation(key + ":" + what, "%s %s: output %d is off by %.5g for h=%s g=%s" % (task["id"], what, o, err[r, o], h[k].tolist(), g[k].tolist()), dict(el.describe(rows[k], p[k % N], y[k]), h=h[k].tolist(), g=g[k].tolist()))

                report("sum", np.abs(ho + go - F), 0)
                for m in (2, 3):
                    report("convexity of h", ho[m * N : (m + 1) * N] - (ho[:N] + ho[N : 2 * N]) / 2, m * N)
                    report("concavity of g", (go[:N] + go[N : 2 * N]) / 2 - go[m * N : (m + 1) * N], m * N)
                res.states += N
                res.transitions += len(y)
                res.traces += 1
                res.outcome(ho[::7])
                res.sample({"key": key, "h": h[0].tolist(), "g": g[0].tolist(), "out": [ho[0].tolist(), go[0].tolist()], "exact": F[0].tolist()})

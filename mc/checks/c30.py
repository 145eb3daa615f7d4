"""C30: equivalent networks (rewritten, permuted, negated) have the same bounds, with every method."""
import itertools

import numpy as np

from mc import common, nets

VALS = [-1.0, -0.25, 0.5, 1.0]
# chains of elementary operations, so that every contiguous part can be nested
D2, D3 = ["dense", {"u": 2}], ["dense", {"u": 3}]
CHAINS = {
    "dense": [D2],
    "relu": [D3, ["act", {"f": "relu"}], D2],
    "relu2": [D2, ["act", {"f": "relu"}], D2, ["act", {"f": "relu"}], D2],
    "tanh": [D3, ["act", {"f": "tanh"}], D2],
    "softplus": [D2, ["act", {"f": "softplus"}], D2],
    "sigmoid-end": [D3, ["act", {"f": "relu"}], D2, ["act", {"f": "sigmoid"}]],
    "relu-end": [D2, ["act", {"f": "softsign"}], D2, ["act", {"f": "relu"}]],
    "bn": [D2, ["bn", {}], ["act", {"f": "relu"}], D2],
    "reshape": [["dense", {"u": 4}], ["reshape", {"t": [2, 2]}], ["permute", {"d": [2, 1]}], D2, ["act", {"f": "relu"}], ["flatten", {}], D2],
    "conv": [["dense", {"u": 6}], ["reshape", {"t": [2, 3, 1]}], ["conv", {"f": 2, "k": [2, 2]}], ["act", {"f": "relu"}], ["flatten", {}], D2],
    "pool": [["dense", {"u": 8}], ["reshape", {"t": [2, 2, 2]}], ["maxpool", {"k": [2, 1]}], ["flatten", {}], D2],
    "exp": [D2, ["act", {"f": "exponential"}], D2],
}
MERGES = ["Add", "Subtract", "Average", "Maximum", "Minimum", "Multiply", "Concatenate"]
BOUNDS = (
    "12 chains of up to 7 layers and 7 merging networks x every method accepting them x box and a ball (l1, l2 or linf) x 2 slopes; rewritings: "
    "Sequential, every contiguous part nested (functional or Sequential, twice), activations embedded in the previous layer, neutral layer (linear "
    "activation, dropout, reshape to the same shape, double permutation) at every position, other names, layers created in "
    "another order, operands of sums and averages exchanged, branches nested; every permutation of the inputs and of the outputs, "
    "negation of the outputs; 2 weight patterns; all boxes of the lattice {-1,-.25,.5,1}^2 (centres of the lattice)"
)
ASSUMPTIONS = ["bounds compared up to 2e-5 + 1e-5*magnitude (float32)", "torch backend"]


def tasks(tier):
    out = []
    for c in CHAINS:
        for m in nets.METHODS:
            if ("pool" in c or c == "exp") and not nets.is_forward(m):
                continue
            out.append({"id": "chain/%s/%s" % (c, m), "chain": c, "method": m, "tier": tier, "cost": 3})
    for g in MERGES:
        for m in nets.METHODS:
            if nets.is_forward(m):
                out.append({"id": "merge/%s/%s" % (g, m), "merge": g, "method": m, "tier": tier, "cost": 1})
    return out


def layers_of(ops, prefix="", rename=False):
    ls = []
    for i, (op, a) in enumerate(ops):
        l = nets.make_layer(op, a)
        ls.append(l)
    return ls


def values(k, shapes):
    """one deterministic tensor per requested shape"""
    vals = (1.0, -1.0, 0.5, -0.75, 1.25, 0.25, -0.5, 0.75)
    out, j = [], 0
    for s in shapes:
        n = int(np.prod(s))
        out.append(np.array([vals[(3 * (j + t) + (j + t) ** 2 * (1 + k) // 2 + 5 * k) % 8] for t in range(n)], np.float32).reshape(s))
        j += n
    return out


def assign(layers, k):
    """the t-th layer with weights always gets the t-th tensors, however the network is written"""
    flat = [l for l in layers if l is not None and l.weights]
    shapes = [tuple(w.shape) for l in flat for w in l.weights]
    vs = values(k, shapes)
    i = 0
    for l in flat:
        ws = []
        for w in l.weights:
            v = vs[i]
            i += 1
            ws.append(np.abs(v) + 0.25 if "variance" in (w.path if hasattr(w, "path") else w.name) else v)
        l.set_weights(ws)


def apply(ls, x):
    for l in ls:
        x = l(x)
    return x


def model_of(pieces, dim=2, seq=False, names=None):
    """pieces: list of layers or ('nest', seq, pieces)"""
    from keras import Model, Sequential
    from keras.layers import Input

    flat = []

    def realise(pieces, x):
        for p in pieces:
            if isinstance(p, tuple):
                inner = Input(tuple(x.shape[1:]))
                if p[1]:
                    s = Sequential([inner] + [realise_one(q, flat) for q in p[2]])
                    x = s(x)
                else:
                    m = Model(inner, realise(p[2], inner))
                    x = m(x)
            else:
                flat.append(p)
                x = p(x)
        return x

    def realise_one(q, flat):
        flat.append(q)
        return q

    if seq:
        m = Sequential([Input((dim,))] + [realise_one(p, flat) for p in pieces])
    else:
        i = Input((dim,))
        m = Model(i, realise(pieces, i))
    return m, flat


def neutral(shape):
    from keras import layers as L

    out = [("linear", [L.Activation("linear")]), ("dropout", [L.Dropout(0.3)]), ("reshape", [L.Reshape(tuple(shape))])]
    if len(shape) == 2:
        out.append(("permute", [L.Permute((2, 1)), L.Permute((2, 1))]))
    if len(shape) == 3:
        out.append(("permute", [L.Permute((2, 3, 1)), L.Permute((3, 1, 2))]))
    return out


def rewritings(ops):
    """yield (name, model, layers in the order of the chain)"""
    from keras import layers as L

    mk = lambda o: nets.make_layer(*o)
    n = len(ops)
    yield ("plain",) + model_of([mk(o) for o in ops])
    yield ("sequential",) + model_of([mk(o) for o in ops], seq=True)
    # shapes after every layer
    ref, ls = model_of([mk(o) for o in ops])
    shapes = [(2,)] + [tuple(l.output.shape[1:]) for l in ls]
    for i in range(n):
        for j in range(i + 1, n + 1):
            p = [mk(o) for o in ops]
            yield ("nested%d-%d" % (i, j),) + model_of(p[:i] + [("nest", (i + j) % 2 == 0, p[i:j])] + p[j:])
    p = [mk(o) for o in ops]
    h = n // 2
    yield ("nested-twice",) + model_of([("nest", False, [("nest", False, p[: h + 1])] + p[h + 1 :])])
    p = [mk(o) for o in ops]
    yield ("nested-each",) + model_of([("nest", i % 2 == 0, [q]) for i, q in enumerate(p)])
    # activations embedded in the layer before
    q, i = [], 0
    while i < n:
        if i + 1 < n and ops[i + 1][0] == "act" and ops[i][0] in ("dense", "conv"):
            q.append(mk([ops[i][0], dict(ops[i][1], act=ops[i + 1][1]["f"])]))
            i += 2
        else:
            q.append(mk(ops[i]))
            i += 1
    if len(q) < n:
        yield ("embedded",) + model_of(q)
    for i in range(n + 1):
        for name, extra in neutral(shapes[i]):
            p = [mk(o) for o in ops]
            yield ("%s@%d" % (name, i),) + model_of(p[:i] + extra + p[i:])
    # names and order of creation
    p = [mk(o) for o in reversed(ops)][::-1]
    for i, l in enumerate(p):
        l.name = "z%d" % (n - i)
    yield ("renamed",) + model_of(p)
    p = [mk(o) for o in ops]
    for i, l in enumerate(p):
        l.name = "%s_wo_activation" % l.name if i % 2 else "decomon_%d" % i
    yield ("odd-names",) + model_of(p)


def merge_rewritings(g):
    from keras import Model
    from keras import layers as L
    from keras.layers import Input

    def parts():
        return L.Dense(2), L.Dense(2), L.Activation("relu"), getattr(L, g)(), L.Dense(2)

    def make(a, b, m, e, fa=None, fb=None, swap=False, first_b=False):
        x = Input((2,))
        if first_b:
            tb, ta = fb(x), fa(x)
        else:
            ta, tb = fa(x), fb(x)
        return Model(x, e(m([tb, ta] if swap else [ta, tb])))

    def sub(ls):
        i = Input((2,))
        m = Model(i, apply(ls, i))
        return lambda x: m(x)

    for name in ("plain", "b-first", "nested-a", "nested-b", "nested-both", "swap", "embedded", "renamed"):
        a, b, r, m, e = parts()
        if name == "swap" and g not in ("Add", "Average"):  # (the relaxations of the other ones are not symmetric)
            continue
        if name == "embedded":
            b = L.Dense(2, activation="relu")
        if name == "renamed":
            for i, l in enumerate((a, b, r, m, e)):
                l.name = "y%d" % (9 - i)
        fa = sub([a]) if name in ("nested-a", "nested-both") else lambda x: a(x)
        fb = (lambda x: b(x)) if name == "embedded" else sub([b, r]) if name in ("nested-b", "nested-both") else lambda x: r(b(x))
        yield name, make(a, b, m, e, fa, fb, name == "swap", name == "b-first"), [a, b, e]


def bounds(model, method, z, **kw):
    from decomon.models import clone

    d = clone(model, method=method, final_ibp=True, final_affine=True, **kw)
    return common.unpack(d.predict_on_single_batch_np(z), d.ibp, d.affine)


def compare(res, key, got, ref, what, dom):
    for m in ref:
        if m not in got:
            res.violation("%s:%s" % (key, m), "%s: no %s" % (what, m))
            continue
        a, b = got[m], ref[m]
        if a.shape != b.shape:
            res.violation("%s:%s" % (key, m), "%s: %s of shape %s instead of %s" % (what, m, a.shape, b.shape))
            continue
        err = np.abs(a - b)
        if not err.max() <= 2e-5 + 1e-5 * max(1.0, np.abs(b).max()) * 2:
            i = int(np.unravel_index(np.argmax(err), err.shape)[0])
            res.violation("%s:%s" % (key, m), "%s: %s differs by %.5g on the domain %s" % (what, m, err.max(), dom[i].tolist()), {"domain": dom[i].tolist()})


def run_task(task, res):
    from decomon.core import BallDomain

    method = task["method"]
    bx = common.boxes(VALS, 2)
    ct = common.points(common.refine(VALS, 2), 2)
    P = (1, 2, np.inf)[nets.METHODS.index(method) % 3]
    doms = [("box", bx, {}), ("ball%s" % P, ct, {"perturbation_domain": "ball"}), ("same-slope", bx, {"slope": "same-slope"})]
    if task["tier"] == "thorough":
        doms += [(s, bx, {"slope": s}) for s in ("adaptative-slope", "zero-lb", "one-lb")]
    ops = CHAINS.get(task.get("chain"))
    for k in (0, 1):
        for dname, z, kw in doms:
            if dname == "adaptative-slope" and task.get("chain") == "softplus":
                continue
            kw = dict(kw)
            if "perturbation_domain" in kw:
                kw["perturbation_domain"] = BallDomain(eps=0.5, p=P)
            ref = None
            it = rewritings(ops) if ops else merge_rewritings(task["merge"])
            for i, (name, model, ls) in enumerate(it):
                if dname != "box" and i % 5 and task["tier"] == "quick":
                    continue
                if k and dname == "box" and i % 3 and task["tier"] == "quick":
                    continue
                assign(ls, k)
                got = bounds(model, method, z, **kw)
                if ref is None:
                    ref, rmodel, rls = got, model, ls
                else:
                    compare(res, "%s/w%d/%s" % (name, k, dname), got, ref, "rewriting %s of the network" % name, z)
                res.states += len(z)
                res.transitions += len(z) * sum(v[0].size for v in ref.values())
                res.traces += 1
            symmetries(res, task, rmodel, rls, ref, method, z, kw, "w%d/%s" % (k, dname), ops)
            for m in ref:
                res.outcome(ref[m])
    res.sample({"task": task["id"], "methods": method, "bounds": list(ref)})


def symmetries(res, task, model, ls, ref, method, z, kw, key, ops):
    dense_end = ops is None or ops[-1][0] == "dense"
    W = [l.get_weights() for l in ls]
    first, last = [l for l in ls if l.weights][0], [l for l in ls if l.weights][-1]
    w0, w1 = first.get_weights(), last.get_weights()
    firsts = [first] if ops else ls[:2]
    # inputs exchanged
    for l in firsts:
        w = l.get_weights()
        l.set_weights([w[0][::-1]] + w[1:])
    if first is last:
        w1s = last.get_weights()
    got = bounds(model, method, z[..., ::-1].copy(), **kw)
    got = {m: (v[:, ::-1] if m in ("wu", "wl") else v) for m, v in got.items()}
    compare(res, key + ":inputs-exchanged", got, ref, "inputs exchanged", z)
    for l, w in zip(ls, W):
        if w:
            l.set_weights(w)
    # outputs exchanged, and negated
    n = w1[0].shape[-1]
    for perm in itertools.permutations(range(n)):
        if perm == tuple(range(n)):
            continue
        if dense_end or ops[-1][0] == "act":
            last.set_weights([w[..., list(perm)] for w in w1])
            got = bounds(model, method, z, **kw)
            compare(res, key + ":outputs-exchanged", got, {m: v[..., list(perm)] for m, v in ref.items()}, "outputs exchanged", z)
    if dense_end:
        last.set_weights([-w for w in w1])
        got = bounds(model, method, z, **kw)
        swap = {"u": "l", "l": "u", "wu": "wl", "wl": "wu", "bu": "bl", "bl": "bu"}
        compare(res, key + ":outputs-negated", got, {m: -ref[swap[m]] for m in ref}, "outputs negated", z)
    for l, w in zip(ls, W):
        if w:
            l.set_weights(w)
    res.states += 3 * len(z)
    res.traces += 3

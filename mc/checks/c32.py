"""C32: on networks of affine layers and relu, the bounds of every method are those of the algorithm it names."""
import itertools

import numpy as np

from mc import nets
from mc.checks.c20 import SHAPES, _call, node_weights

VALS = [-1.1, -0.3, 0.4, 0.9]
CHAIN = ["dense", "dense_nobias", "dense_relu", "relu", "linear", "bn", "dropout", "flatten", "reshape_permute", "dense3d", "conv", "conv_same", "conv_stride", "nested", "nested_seq"]
MERGE = ["res_add", "res_sub", "res_avg", "res_concat", "add3", "avg3", "concat3", "shared_layer"]
BOUNDS = (
    "every layer word of length 1 over the 23 macros made of affine layers, relu, sums, differences, averages and concatenations (crown methods: without merges nor shared layers) x 7 methods x 5 slopes (3 of them on balls) x "
    "{box, l1, l2, linf}, of length 2 x 7 methods (thorough: 5 slopes, every domain), of length 3 over 5 macros (thorough: 9), with 1 and 3 inputs/outputs, 6 convolution, permutation and normalisation configurations; "
    "every network between two dense relu layers; 1-2 weight patterns; all boxes of the lattice {-1.1,-.3,.4,.9}^2 (centres of the lattice)"
)
ASSUMPTIONS = [
    "bounds compared up to 3e-5 + 3e-5*magnitude (float32)",
    "domains on which a pre-activation is within 1e-4 of the discontinuities of the relaxation (u=0, l=0, u=-l) are left out",
    "crown and crown-forward-ibp only know the box enclosing a ball",
]
ORACLE = (
    "independent float64 implementation of the published algorithms (interval arithmetic, forward affine propagation with exact concretisation, hybrid, backward propagation (CROWN) with the intermediate bounds of each "
    "method) with the triangular relaxation of relu, on the matrices read from the layers of keras"
)
EPS = 0.4
MARGIN = 1e-4
SHP = [s for s in SHAPES if not s.startswith("pool") and s not in ("dense-rank3", "exp-chain")]
DEEP = ["dense_relu", "relu", "bn", "conv_same", "res_sub", "dense3d", "nested", "conv_stride", "res_add"]
DOMS = ["box", "2", "1", "inf"]


def meth(w):
    return [m for m in nets.METHODS if nets.supported(w, m)]


def tasks(tier):
    out = []
    deep = tier == "thorough"
    words = CHAIN + MERGE
    for i, m in enumerate(words):
        out.append({"id": m, "words": [[m]], "doms": DOMS, "slopes": nets.SLOPES, "patterns": [0, 1] if deep else [i % 2], "cost": 4})
        for dim, o in ((1, 1), (3, 3)):
            out.append({"id": "dim%d/%s" % (dim, m), "words": [[m]], "dim": dim, "out": o, "doms": DOMS if deep else [DOMS[(i + dim) % 4]], "slopes": nets.SLOPES[i % 5 : i % 5 + 1], "patterns": [1], "cost": 1})
        out.append({"id": "%s+*" % m, "words": [[m, b] for b in words], "doms": DOMS if deep else [DOMS[i % 4]], "slopes": nets.SLOPES if deep else nets.SLOPES[i % 5 : i % 5 + 1], "patterns": [(i // 2) % 2], "cost": 8})
    n = 9 if deep else 5
    for a, b in itertools.product(DEEP[:n], repeat=2):
        out.append({"id": "%s+%s+*" % (a, b), "words": [[a, b, c] for c in DEEP[:n]], "doms": ["box"], "slopes": ["volume-slope"], "patterns": [0], "cost": 3})
    for s in SHP:
        out.append({"id": s, "shape": s, "doms": DOMS if deep else ["box", "2"], "slopes": nets.SLOPES if deep else ["volume-slope", "same-slope"], "patterns": [0, 1], "cost": 3})
    for m in ("dense_relu", "conv_same", "res_sub"):
        out.append({"id": "tf/%s" % m, "words": [[m, "dense_relu"]], "doms": ["box"], "slopes": ["volume-slope"], "patterns": [0], "backend": "tensorflow", "cost": 8})
    for t in out:
        t["tier"] = tier
    return out


# ------------------------------------------------------------------ the network as matrices
def compile_(prog, weights, shape, steps, src=0):
    """append to steps the elementary operations of the program: ("aff", inputs, [matrices], offset) | ("relu", input);
    returns (index of the last value, its shape); value 0 is the input of the network"""
    vals, layers = [], []

    def relu(i, act):
        if act == "relu":
            steps.append(("relu", [i]))
            return len(steps)
        assert act in (None, "linear"), act
        return i

    for op, a, ins in prog:
        if op == "in":
            vals.append((src, shape))
            layers.append(None)
            continue
        i, s = vals[ins[0]]
        if op == "act":
            v = (relu(i, a["f"]), s)
            layers.append(None)
        elif op == "sub":
            v = compile_(a["prog"], weights, s, steps, i)
            layers.append(None)
        elif op == "merge":
            n = int(np.prod(s))
            idx, shp = [vals[k][0] for k in ins], [vals[k][1] for k in ins]
            I = np.eye(n)
            if a["m"] == "Concatenate":
                # where every entry of every operand goes
                pos, t = [], 0
                for q in shp:
                    pos.append(np.arange(t, t + int(np.prod(q))).reshape((1,) + tuple(q)))
                    t += int(np.prod(q))
                order = np.concatenate(pos, a.get("axis", -1))
                G = np.eye(t)[:, order.reshape(-1)]
                mats = [G[p.reshape(-1)] for p in pos]
                s = order.shape[1:]
            else:
                c = {"Add": [1.0] * len(ins), "Subtract": [1.0, -1.0], "Average": [1.0 / len(ins)] * len(ins)}[a["m"]]
                mats = [k * I for k in c]
            steps.append(("aff", idx, mats, 0.0))
            v = (len(steps), s)
            layers.append(None)
        else:
            if op == "again":
                layer, act = layers[a["of"]]
                zero = np.zeros((1,) + tuple(s))
            else:
                act = a.get("act")
                layer = nets.make_layer(op, {k: b for k, b in a.items() if k != "act"})
                zero = np.zeros((1,) + tuple(s))
                _call(layer, zero)
                n = len(layer.weights)
                layer.set_weights([weights.pop(0) for _ in range(n)])
            n = int(np.prod(s))
            if op == "relu_layer":
                v = (relu(i, "relu"), s)
            else:
                Y = _call(layer, np.concatenate([zero.reshape(1, n), np.eye(n)]).reshape((n + 1,) + tuple(s)))
                o = Y.shape[1:]
                Y = Y.reshape(n + 1, -1)
                steps.append(("aff", [i], [Y[1:] - Y[:1]], Y[0]))
                v = (relu(len(steps), act), o)
            layers.append((layer, act))
        vals.append(v)
    return vals[-1]


# ------------------------------------------------------------------ reference algorithms
class Domain:
    def __init__(self, kind, Z):
        self.kind, self.Z = kind, np.asarray(Z, np.float64)
        self.lo, self.hi = (self.Z[:, 0], self.Z[:, 1]) if kind == "box" else (self.Z - EPS, self.Z + EPS)

    def extremum(self, w, b, s):
        """maximum (s=1) or minimum (s=-1) of x.w+b"""
        if self.kind == "box":
            x, y = (self.hi, self.lo) if s > 0 else (self.lo, self.hi)
            return np.einsum("bi,bio->bo", x, np.maximum(w, 0)) + np.einsum("bi,bio->bo", y, np.minimum(w, 0)) + b
        q = {"1": np.abs(w).max(1), "2": np.sqrt((w**2).sum(1)), "inf": np.abs(w).sum(1)}[self.kind]
        return np.einsum("bi,bio->bo", self.Z, w) + b + s * EPS * q

    def box(self):
        d = Domain("box", np.stack([self.lo, self.hi], 1))
        return d


def hull(u, l, slope, ok):
    """relaxation au*x+bu >= relu(x) >= al*x on [l, u]; clears ok where it is not continuous"""
    bad = (np.abs(u) < MARGIN) | (np.abs(l) < MARGIN)
    if slope in ("volume-slope", "adaptative-slope"):
        bad |= (np.abs(u + l) < MARGIN) & (u > 0) & (l < 0)
    ok &= ~bad.any(1)
    uns = (l < 0) & (u > 0)
    au = np.where(uns, u / np.where(uns, u - l, 1.0), (l >= 0).astype(float))
    bu = np.where(uns, -au * l, 0.0)
    low = {"volume-slope": (u > -l).astype(float), "adaptative-slope": (u > -l).astype(float), "zero-lb": np.zeros_like(u), "one-lb": np.ones_like(u), "same-slope": au}[slope]
    return au, bu, np.where(uns, low, au)


def pos_neg(M):
    return np.maximum(M, 0), np.minimum(M, 0)


def forward(steps, dom, slope, ok, ibp, affine):
    """state of every value: (u, l) with ibp, (wu, bu, wl, bl) with affine, and the tightest known constant bounds"""
    d, B = dom.Z.shape[-1], len(dom.Z)
    I = np.repeat(np.eye(d)[None], B, 0)
    Z0 = np.zeros((B, d))
    st = [{"u": dom.hi, "l": dom.lo, "wu": I, "bu": Z0, "wl": I, "bl": Z0}]

    def close(s):
        us, ls = [], []
        if ibp:
            us.append(s["u"]), ls.append(s["l"])
        if affine:
            us.append(dom.extremum(s["wu"], s["bu"], 1)), ls.append(dom.extremum(s["wl"], s["bl"], -1))
        s["U"], s["L"] = np.min(us, 0), np.max(ls, 0)
        if ibp and affine:
            s["u"], s["l"] = s["U"], s["L"]
        return s

    close(st[0])
    for op in steps:
        if op[0] == "aff":
            s = {k: 0.0 for k in ("u", "l", "wu", "bu", "wl", "bl")}
            for i, M in zip(op[1], op[2]):
                P, N = pos_neg(M)
                t = st[i]
                if ibp:
                    s["u"], s["l"] = s["u"] + t["u"] @ P + t["l"] @ N, s["l"] + t["l"] @ P + t["u"] @ N
                if affine:
                    s["wu"], s["wl"] = s["wu"] + t["wu"] @ P + t["wl"] @ N, s["wl"] + t["wl"] @ P + t["wu"] @ N
                    s["bu"], s["bl"] = s["bu"] + t["bu"] @ P + t["bl"] @ N, s["bl"] + t["bl"] @ P + t["bu"] @ N
            for k in ("u", "l", "bu", "bl"):
                s[k] = s[k] + op[3]
        else:
            t = st[op[1][0]]
            s = {"u": np.maximum(t["U"], 0), "l": np.maximum(t["L"], 0)}
            if affine:
                au, bu, al = hull(t["U"], t["L"], slope, ok)
                s["wu"], s["bu"] = t["wu"] * au[:, None], t["bu"] * au + bu
                s["wl"], s["bl"] = t["wl"] * al[:, None], t["bl"] * al
        st.append(close(s))
    return st


def backward(steps, last, pre, dom, slope, ok):
    """affine bounds of the value `last` with respect to the input; pre(i) gives the constant bounds of the value i"""
    B = len(dom.Z)

    def size(i):
        while i and steps[i - 1][0] == "relu":
            i = steps[i - 1][1][0]
        return dom.Z.shape[-1] if not i else steps[i - 1][2][0].shape[1]

    n = size(last)
    I = np.repeat(np.eye(n)[None], B, 0)
    wu, wl, bu, bl = I, I, np.zeros((B, n)), np.zeros((B, n))
    i = last
    while i:
        op = steps[i - 1]
        if op[0] == "aff":
            assert len(op[1]) == 1
            bu, bl = bu + op[3] @ wu, bl + op[3] @ wl
            wu, wl = op[2][0] @ wu, op[2][0] @ wl
        else:
            u, l = pre(op[1][0])
            au, b, al = hull(u, l, slope, ok)
            P, N = pos_neg(wu)
            bu, wu = bu + np.einsum("bi,bio->bo", b, P), au[:, :, None] * P + al[:, :, None] * N
            P, N = pos_neg(wl)
            bl, wl = bl + np.einsum("bi,bio->bo", b, N), al[:, :, None] * P + au[:, :, None] * N
        i = op[1][0]
    return wu, bu, wl, bl


def reference(steps, last, method, dom, slope):
    """(u, l, wu, bu, wl, bl) of the method, None for what it does not define, and the mask of the domains compared"""
    ok = np.ones(len(dom.Z), bool)
    if nets.is_forward(method):
        ibp, affine = method != "forward-affine", method != "forward-ibp"
        s = forward(steps, dom, slope, ok, ibp, affine)[last]
        return [s["U"], s["L"]] + ([s[k] for k in ("wu", "bu", "wl", "bl")] if affine else [None] * 4), ok
    constant = method in ("crown", "crown-forward-ibp")
    if constant:
        dom = dom.box()
    if method == "crown":
        memo = {}

        def pre(i):
            if i not in memo:
                wu, bu, wl, bl = backward(steps, i, pre, dom, slope, ok)
                memo[i] = dom.extremum(wu, bu, 1), dom.extremum(wl, bl, -1)
            return memo[i]

    else:
        m = method[6:]
        st = forward(steps, dom, slope, ok, m != "forward-affine", m != "forward-ibp")
        pre = lambda i: (st[i]["U"], st[i]["L"])
    wu, bu, wl, bl = backward(steps, last, pre, dom, slope, ok)
    u, l = dom.extremum(wu, bu, 1), dom.extremum(wl, bl, -1)
    if constant:  # only constant bounds are known, given as constant functions
        wu, bu, wl, bl = 0 * wu, u, 0 * wl, l
    return [u, l, wu, bu, wl, bl], ok


def run_task(task, res):
    from decomon.core import BallDomain, BoxDomain

    from mc import common, e2e

    dim = task.get("dim", 2)
    if "shape" in task:
        progs = [(task["shape"], nets.chain(2, *SHAPES[task["shape"]]), ())]
    else:
        progs = [("+".join(w), nets.word_program(w, dim=dim, out=task.get("out", 2)), tuple(w)) for w in task["words"]]
    vals = VALS if dim < 3 else [-1.1, 0.4, 0.9]
    for name, prog, word in progs:
        for k in task["patterns"]:
            nodes = []
            model = nets.build(prog, layers=nodes)
            model.set_weights(nets.pattern_weights(model, k))
            ws = node_weights(prog, nodes)
            steps = []
            last, _ = compile_(prog, ws, (dim,), steps)
            assert not ws
            # guards the oracle: the matrices are the network
            X = common.points(vals, dim)
            v = [X.astype(np.float64)]
            for op in steps:
                v.append(np.maximum(v[op[1][0]], 0) if op[0] == "relu" else sum(v[i] @ M for i, M in zip(op[1], op[2])) + op[3])
            F = nets.predict(model, X).reshape(len(X), -1)
            assert np.abs(F - v[last]).max() <= 2e-5 * (1 + np.abs(F).max()), "the reference is not the network"
            for kind in task["doms"]:
                Z = common.boxes(vals, dim) if kind == "box" else X
                domain = BoxDomain() if kind == "box" else BallDomain(eps=EPS, p={"1": 1, "2": 2, "inf": np.inf}[kind])
                for slope in task["slopes"] if kind == task["doms"][0] or len(task["slopes"]) < 3 or task["tier"] == "thorough" else task["slopes"][::2]:
                    for method in meth(word):
                        want, ok = reference(steps, last, method, Domain(kind, Z), slope)
                        d = e2e.convert(model, method, slope=slope, perturbation_domain=domain, final_ibp=True, final_affine=method != "forward-ibp")
                        r = common.unpack(d.predict_on_single_batch_np(Z), d.ibp, d.affine)
                        key = "%s/w%d/%s/%s/%s" % (name, k, kind, slope, method)
                        for t, w in zip(("u", "l", "wu", "bu", "wl", "bl"), want):
                            if w is None:
                                continue
                            g = r[t]
                            if g.shape != w.shape:
                                res.violation("%s:%s shape" % (key, t), "%s has shape %s instead of %s" % (t, g.shape, w.shape))
                                continue
                            e = np.nan_to_num(np.abs(g - w), nan=np.inf).reshape(len(g), -1).max(1) * ok
                            j = int(np.argmax(e))
                            res.transitions += int(ok.sum()) * int(np.prod(w.shape[1:]))
                            if not e[j] <= 3e-5 + 3e-5 * np.abs(w[j]).max():
                                res.violation("%s:%s" % (key, t), "on the domain %s (%s), %s is %s, the algorithm gives %s" % (Z[j].tolist(), kind, t, g[j].tolist(), w[j].tolist()), {"method": method, "slope": slope, "program": prog})
                        res.states += int(ok.sum())
                        res.count("left out", int((~ok).sum()))
                        res.traces += 1
                        res.outcome(r["u"])
    res.sample({"programs": [n for n, _, _ in progs][:3], "domains": task["doms"], "slopes": task["slopes"]})

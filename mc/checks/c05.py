"""C05: forward propagation through linear, normalising and reshaping layers."""
import itertools

from mc import absel

BOUNDS = (
    "every layer configuration of the listed grids (dense units/bias/rank, conv kernel x stride x padding x bias x channels x "
    "data format, batch normalisation axis x center x scale, flatten/reshape/permute targets, dropout) x 3 modes x 2-3 weight "
    "patterns x 4 kinds of domain x shared/copied weights; abstract elements 2-6 domains x 2 affine patterns x 2 relations of the "
    "constant and affine bounds; values: all corner combinations of the element (up to 8 inputs) or single-coordinate, "
    "alternating and extremal combinations (more inputs)"
)
ASSUMPTIONS = ["elements, weights and values restricted to the stated lattices", "float32 slack 2e-5 + 1e-5*magnitude"]


def configs(tier):
    c = []
    for u, bias in itertools.product((1, 2, 3), (True, False)):
        c.append(("dense", {"u": u, "bias": bias}, (3,)))
    c.append(("dense", {"u": 2}, (2, 2)))
    c.append(("dense", {"u": 3, "bias": False}, (2, 2)))
    c.append(("dense", {"u": 2}, (2, 1, 2)))
    for k, s, p in itertools.product(([1, 1], [2, 1], [1, 2], [2, 2], [3, 2]), (1, 2, [2, 1]), ("valid", "same")):
        c.append(("conv", {"f": 2, "k": k, "s": s, "p": p}, (3, 2, 1)))
    c.append(("conv", {"f": 1, "k": [2, 2], "bias": False}, (2, 3, 2)))
    c.append(("conv", {"f": 3, "k": [2, 2], "p": "same"}, (2, 2, 2)))
    for k, dil, p in itertools.product(([2, 1], [1, 2], [2, 2]), (2, [1, 2], [2, 1]), ("valid", "same")):
        c.append(("conv", {"f": 1, "k": k, "dil": dil, "p": p}, (3, 3, 1)))
    c.append(("conv", {"f": 2, "k": [2, 2], "dil": [2, 1], "df": "channels_first"}, (1, 3, 2)))
    for k, s, p in itertools.product(([2, 1], [2, 2]), (1, 2), ("valid", "same")):
        c.append(("conv", {"f": 2, "k": k, "s": s, "p": p, "df": "channels_first"}, (1, 3, 2)))
    c.append(("conv", {"f": 2, "k": [2, 2], "df": "channels_first", "bias": False}, (2, 2, 3)))
    for ce, sc in itertools.product((True, False), repeat=2):
        c.append(("bn", {"axis": -1, "center": ce, "scale": sc}, (3,)))
    for ax in (1, 2, -1, 3):
        c.append(("bn", {"axis": ax}, (2, 1, 3)))
    for ax in (1, 2):
        c.append(("bn", {"axis": ax}, (3, 2)))
        c.append(("bn", {"axis": ax}, (2, 2)))  # the axes have the same size
    for ax in (1, 2, 3):
        c.append(("bn", {"axis": ax}, (2, 2, 2)))
    c.append(("bn", {"axis": 1}, (3, 1, 3)))
    c.append(("dense", {"u": 2}, (2, 2, 2)))
    c.append(("dense", {"u": 4}, (2, 1, 3)))
    c.append(("conv", {"f": 2, "k": [2, 2], "p": "same", "df": "channels_first"}, (2, 2, 2)))
    c.append(("conv", {"f": 2, "k": [2, 2], "p": "same"}, (2, 2, 2)))
    c.append(("conv", {"f": 3, "k": [1, 2], "s": [2, 1]}, (3, 2, 2)))
    c += [("flatten", {}, (2, 3)), ("flatten", {}, (2, 1, 2)), ("flatten", {"df": "channels_last"}, (2, 1, 3)), ("flatten", {"df": "channels_first"}, (2, 2, 2)), ("flatten", {"df": "channels_first"}, (3, 2)), ("flatten", {"df": "channels_first"}, (2, 3, 2))]
    c += [("reshape", {"t": t}, s) for t, s in (([2, 2], (4,)), ([4], (2, 2)), ([2, 1, 3], (6,)), ([3, 2], (2, 3)), ([-1], (2, 3)), ([-1, 2], (4,)))]
    c += [("permute", {"d": list(d)}, s) for s in ((2, 3), (2, 1, 3), (2, 3, 2)) for d in itertools.permutations(range(1, len(s) + 1))]
    c += [("dropout", {"r": 0.5}, (3,)), ("dropout", {"r": 0.25}, (2, 2)), ("act", {"f": "linear"}, (2, 2))]
    return c


def name(op, a, sh):
    return "%s[%s]%s" % (op, ",".join("%s=%s" % (k, v) for k, v in sorted(a.items())), list(sh))


def tasks(tier):
    out = []
    for i, (op, a, sh) in enumerate(configs(tier)):
        out.append({"id": name(op, a, sh), "op": op, "args": a, "shape": list(sh), "doms": absel.DOMS if (tier == "thorough" or i % 4 == 0) else ["box"], "patterns": 2 if tier == "quick" else 6, "cost": 1})
    for op, a, sh in configs(tier)[::6]:
        if a.get("df") != "channels_first":
            out.append({"id": "tf/" + name(op, a, sh), "op": op, "args": a, "shape": list(sh), "doms": ["box"], "patterns": 1, "backend": "tensorflow", "cost": 1})
    return out


def run_task(task, res):
    from mc import layerchk as lc

    sh = tuple(task["shape"])
    n = 1
    for k in sh:
        n *= k
    for dom in task["doms"]:
        el = absel.Elem(n, dom=dom, patterns=(1, 3), placements=("raw",), cuts=("exact", "cut"))
        for mode in absel.MODES:
            for pat in range(task["patterns"]):
                for shared in (True, False):
                    lc.forward(res, "%s/%s/w%d/%s" % (dom, mode, pat, "shared" if shared else "copied"), task["op"], task["args"], [sh], el, mode, pattern=pat, shared=shared)

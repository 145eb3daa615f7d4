"""C09: backward relaxations of the merges of several tensors, operand by operand."""
from mc import absel

BOUNDS = (
    "backward_add/subtract/maximum/minimum/multiply on operands of shape (2,), (1,2) and (3,) with propagated coefficients of 1, 2 and 3 "
    "columns from a signed lattice (upper and lower ones equal or different, 6 patterns), and the backward layers of Add, Subtract, "
    "Maximum, Minimum, Multiply (2 operands), Average (2-4 operands) x 3 modes x 4 kinds of domain; elements: 2-6 domains x 3 affine "
    "patterns x 4 placements x 3 relations of the constant and affine bounds; values: all corner combinations of the operands"
)
ASSUMPTIONS = ["elements, coefficients and values restricted to the stated lattices", "float32 slack 2e-5 + 1e-5*magnitude"]
ORACLE = "the merge itself in float64 composed with the propagated coefficients, at every compatible combination of operand values: the bounds given for an operand must hold as affine functions of that operand alone."
OPS = ["add", "subtract", "maximum", "minimum", "multiply"]
LAYERS = [("Add", 2), ("Subtract", 2), ("Maximum", 2), ("Minimum", 2), ("Multiply", 2), ("Average", 2), ("Average", 3), ("Average", 4)]


def tasks(tier):
    out = []
    for dom in absel.DOMS:
        for op in OPS:
            for sh in ((2,), (1, 2), (3,)):
                out.append({"id": "%s%s/%s" % (op, list(sh), dom), "op": op, "shape": list(sh), "dom": dom, "cost": 1})
        for m, n in LAYERS:
            for sh in ((2,),) if n > 2 else ((2,), (1, 2)):
                out.append({"id": "Backward%s%d%s/%s" % (m, n, list(sh), dom), "layer": m, "n": n, "shape": list(sh), "dom": dom, "cost": 1})
    for op in OPS:
        out.append({"id": "tf/%s" % op, "op": op, "shape": [2], "dom": "box", "backend": "tensorflow", "cost": 1})
    for m, n in LAYERS:
        out.append({"id": "tf/Backward%s%d" % (m, n), "layer": m, "n": n, "shape": [2], "dom": "box", "backend": "tensorflow", "cost": 1})
    if tier == "thorough":
        for t in out:
            t["deep"] = True
    return out


def exact(np, op, ys):
    if op == "subtract":
        return ys[0] - ys[1]
    if op == "average":
        return sum(ys) / len(ys)
    f = {"add": np.add, "maximum": np.maximum, "minimum": np.minimum, "multiply": np.multiply}[op]
    r = ys[0]
    for y in ys[1:]:
        r = f(r, y)
    return r


def run_task(task, res):
    import numpy as np
    import decomon.backward_layers.utils as bu
    from decomon.backward_layers.convert import to_backward
    from decomon.layers.convert import to_decomon

    from mc import common, layerchk as lc

    sh = tuple(task["shape"])
    k = int(np.prod(sh))
    n = task.get("n", 2)
    el = absel.Elem(k * n, dom=task["dom"], patterns=range(12) if task.get("deep") else (0, 1, 2), placements=("raw", "l0", "u0", "mid"), cuts=("exact", "loose", "cut"))
    d = absel.make_domain(task["dom"])
    for mode in absel.MODES:
        if mode == "ibp" and task["dom"] not in ("box",):
            continue
        t = absel.tensors(el.inputs(mode, [sh] * n))
        q = len(t) // n
        parts = [t[i * q : (i + 1) * q] for i in range(n)]
        Y, ok = el.values(mode)
        ys = [Y[..., i * k : (i + 1) * k] for i in range(n)]
        B = el.B
        if "layer" in task:
            layer, _ = lc.make("merge", {"m": task["layer"]}, [sh] * n)
            dl = to_decomon(layer, el.d, perturbation_domain=d, ibp=mode != "affine", affine=mode != "ibp")
            b = to_backward(dl, mode=mode, perturbation_domain=d)
            flat = [a for p in parts for a in p]
            judge(res, mode, b(flat), el, Y, ok, ys, exact(np, task["layer"].lower(), ys), None, np)
            # the layer knows its own mode, but not when it is built on the keras layer
            if task["layer"] in ("Add", "Average"):
                b = to_backward(layer, mode=mode, perturbation_domain=d)
                judge(res, mode + "/keras", b(flat), el, Y, ok, ys, exact(np, task["layer"].lower(), ys), None, np)
            continue
        F = exact(np, task["op"], ys)
        f = getattr(bu, "backward_" + task["op"])
        for o in (1, 2, 3):
            for pat in range(6):
                j = np.arange(k * o).reshape(k, o)
                w = lambda s: np.take(absel.LAT, (3 * j + s * j * j + 2 * s + pat) % 8).astype(np.float32)
                bb = lambda s: np.take(absel.LAT, (np.arange(o) + s + pat) % 8).astype(np.float32)
                wu, wl = w(pat), w(pat if pat % 2 else pat + 1)
                cu, cl = bb(1), bb(3)
                if pat == 4:
                    wu, wl = -np.abs(wu), -np.abs(wl)
                full = lambda a: np.repeat(a[None], B, 0)
                out = f(parts[0], parts[1], *absel.tensors([full(wu), full(cu), full(wl), full(cl)]), perturbation_domain=d, mode=mode)
                judge(res, "%s/o%d/p%d" % (mode, o, pat), out, el, Y, ok, ys, F, (wu, cu, wl, cl), np)


def judge(res, key, out, el, Y, ok, ys, F, coef, np):
    from mc import common

    if len(out) != len(ys):
        res.violation(key + ":operands", "bounds for %d operands out of %d" % (len(out), len(ys)))
        return
    if coef is None:
        GU = GL = F
    else:
        wu, cu, wl, cl = [c.astype(np.float64) for c in coef]
        GU, GL = F @ wu + cu, F @ wl + cl
    o = GU.shape[-1]
    B = ok.shape[0]
    for i, bnd in enumerate(out):
        a = [np.asarray(x, np.float64) for x in common.to_np(list(bnd))]
        k = ys[i].shape[-1]
        if a[0].shape[1:] != (k, o) or a[2].shape[1:] != (k, o) or a[1].shape[1:] != (o,) or a[3].shape[1:] != (o,):
            res.violation("%s/operand%d:shape" % (key, i), "bounds of shapes %s, expected %s" % ([x.shape for x in a], (k, o)))
            continue
        a = [np.broadcast_to(x, (B,) + x.shape[1:]) for x in a]
        up = np.einsum("bpcn,bno->bpco", ys[i], a[0]) + a[1][:, None, None]
        lo = np.einsum("bpcn,bno->bpco", ys[i], a[2]) + a[3][:, None, None]
        tol = common.tol_for(GU, {"wu": a[0], "bu": a[1], "wl": a[2], "bl": a[3]})
        absel.check(res, "%s/operand%d" % (key, i), up, 1, GU, ok, el, Y, tol, "backward-upper")
        absel.check(res, "%s/operand%d" % (key, i), lo, -1, GL, ok, el, Y, tol, "backward-lower")
        res.outcome(a[1])
        res.outcome(a[3])
    res.states += B
    res.transitions += int(ok.sum())
    res.traces += 1
    res.sample({"key": key, "element": str(el.rows[B // 2]), "coefficients": None if coef is None else coef[0].tolist()})

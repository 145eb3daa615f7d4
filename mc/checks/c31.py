"""C31: the representations of the bounds (constant, affine, both) describe the same bounds."""
import itertools

import numpy as np

from mc import nets

VALS = [-1.0, -0.25, 0.5, 1.0]
BOUNDS = (
    "every layer word of length 1 over the 36-macro alphabet and of length 2 over 8 x 13 macros (thorough: 36 x 36), 6 networks with several "
    "outputs, words of length 1 with 1 and 3 inputs/outputs, x every method accepting them x {box, l1, l2, linf balls} (words of length 2: one of "
    "them; two slopes on the boxes) x the 4 requests of representation (the method's own one, constant, affine, both); 1 or 2 weight patterns; all boxes of the "
    "lattice {-1,-.25,.5,1}^2 (centres of the lattice); get_range/upper/lower_box (get_range/upper/lower_noise) with each representation"
)
ASSUMPTIONS = ["bounds compared up to 2e-5 + 2e-5*magnitude (float32)", "a hybrid propagation may have constant bounds strictly tighter than its affine ones"]
ORACLE = "the exact extremum of the returned affine functions over the box or the ball, computed in float64 by an independent program, and pairwise comparison of the representations"
FIRST = ["dense_relu", "dense_tanh", "softplus", "bn", "res_add", "res_max", "conv_same", "dense3d"]
SECOND = ["dense", "dense_relu", "relu", "sigmoid", "nested", "bn", "res_sub", "res_mul", "res_concat", "avg3", "reuse_max", "conv_same", "maxpool"]
REQUESTS = [(True, True), (False, True), (True, False), (None, None)]
DOMS = ["box", "2", "1", "inf"]
EPS = 0.5


def tasks(tier):
    from mc.checks.c01 import MULTI

    out = []
    deep = tier == "thorough"
    for i, m in enumerate(nets.MACROS):
        out.append({"id": m, "words": [[m]], "doms": DOMS, "patterns": [0, 1] if deep else [i % 2], "slopes": nets.SLOPES if deep else ["volume-slope", "same-slope"], "cost": 4})
        for dim, o in ((1, 1), (3, 3)):
            out.append({"id": "dim%d/%s" % (dim, m), "words": [[m]], "dim": dim, "out": o, "doms": DOMS if deep else [DOMS[(i + dim) % 4]], "patterns": [1 - i % 2], "cost": 2})
    for i, m in enumerate(nets.MACROS if deep else FIRST):
        out.append({"id": "%s+*" % m, "words": [[m, b] for b in (nets.MACROS if deep else SECOND)], "doms": [DOMS[i % 4]], "patterns": [i % 2], "cost": 8})
    for n in MULTI:
        out.append({"id": "multi/%s" % n, "multi": n, "doms": DOMS, "patterns": [0, 1] if deep else [0], "cost": 3})
    for m in ("dense_relu", "conv_same", "res_max"):
        out.append({"id": "tf/%s" % m, "words": [[m]], "doms": DOMS[:2], "patterns": [0], "backend": "tensorflow", "cost": 8})
    return out


def extremum(dom, z, w, b, s):
    """exact maximum (s=1) or minimum (s=-1) of z.w+b over the domain"""
    z = np.asarray(z, np.float64)
    if dom == "box":
        lo, hi = (z[:, 0], z[:, 1]) if s > 0 else (z[:, 1], z[:, 0])
        return np.einsum("bi,bio->bo", hi, np.maximum(w, 0)) + np.einsum("bi,bio->bo", lo, np.minimum(w, 0)) + b
    n = {"1": np.abs(w).max(1), "2": np.sqrt((w**2).sum(1)), "inf": np.abs(w).sum(1)}[dom]
    return np.einsum("bi,bio->bo", z, w) + b + s * EPS * n


def run_task(task, res):
    from decomon.core import BallDomain, BoxDomain

    from mc import common

    if "multi" in task:
        from mc.checks.c01 import MULTI

        prog, outs = MULTI[task["multi"]]
        progs = [(task["multi"], prog, outs, None)]
    else:
        progs = [("+".join(w), nets.word_program(w, dim=task.get("dim", 2), out=task.get("out", 2)), None, tuple(w)) for w in task["words"]]
    for dom in task["doms"]:
        for name, prog, outs, word in progs:
            d = prog[0][1]["dim"]
            vals = VALS if d < 3 else [-1.0, 0.0, 1.0]
            Z = common.boxes(vals, d) if dom == "box" else common.points(vals, d)
            domain = BoxDomain() if dom == "box" else BallDomain(eps=EPS, p={"1": 1, "2": 2, "inf": np.inf}[dom])
            for k in task["patterns"]:
                for slope in task.get("slopes", ["volume-slope"]) if dom == task["doms"][0] else ["volume-slope"]:
                    for method in nets.METHODS:
                        if not (nets.is_forward(method) or task["multi"] != "shared" if word is None else nets.supported(word, method, slope)):
                            continue
                        model = nets.build(prog, outputs=outs)
                        model.set_weights(nets.pattern_weights(model, k))
                        explore(res, "%s/%s/%s/%s/w%d" % (name, dom, method, slope, k), model, method, slope, dom, domain, Z, 1 if outs is None else len(outs))
                        res.states += len(Z)
            res.sample({"program": prog, "outputs": outs, "domain": dom})


def explore(res, key, model, method, slope, dom, domain, Z, n_out):
    from decomon import get_lower_box, get_lower_noise, get_range_box, get_range_noise, get_upper_box, get_upper_noise

    from mc import common, e2e

    seen = []
    for fi, fa in REQUESTS if slope == "volume-slope" and dom == "box" else REQUESTS[:3]:
        kw = {} if fi is None else {"final_ibp": fi, "final_affine": fa}
        d = e2e.convert(model, method, perturbation_domain=domain, slope=slope, **kw)
        if fi is not None and (d.ibp, d.affine) != (fi, fa):
            res.violation(key + ":request", "constant=%s affine=%s requested, the model says constant=%s affine=%s" % (fi, fa, d.ibp, d.affine))
            return
        out = d.predict_on_single_batch_np(Z)
        n = {(True, True): 7, (False, True): 5, (True, False): 2}[(d.ibp, d.affine)]
        if len(out) != n * n_out:
            res.violation(key + ":outputs", "%d tensors for %d outputs with constant=%s affine=%s" % (len(out), n_out, d.ibp, d.affine))
            return
        parts = []
        for i in range(n_out):
            o = out[n * i : n * (i + 1)]
            if d.affine and (o[0].shape != Z.shape or not np.abs(o[0] - Z).max() <= 1e-6):
                res.violation(key + ":domain", "the affine bounds (constant=%s) of output %d come with another domain than the one asked: %s for %s" % (fi, i, o[0][0].tolist(), Z[0].tolist()))
                return
            parts.append(common.unpack(o, d.ibp, d.affine))
        seen.append(((fi, fa), d, parts))
        res.traces += 1
    ref = seen[0][2]
    for i in range(n_out):
        r = ref[i]
        mag = max(np.abs(v[np.isfinite(v)]).max() if np.isfinite(v).any() else 0 for v in r.values())
        tol = 2e-5 + 2e-5 * mag
        for (fi, fa), d, parts in seen[1:]:
            for t, v in parts[i].items():
                res.transitions += v.size
                if v.shape != r[t].shape or not np.abs(v - r[t]).max() <= tol:
                    j = None if v.shape != r[t].shape else int(np.argmax(np.nan_to_num(np.abs(v - r[t]), nan=np.inf).reshape(len(v), -1).max(1)))
                    res.violation("%s:same %s" % (key, t), "output %d on %s: %s is %s when constant=%s affine=%s are requested, %s when both are" % (i, None if j is None else Z[j].tolist(), t, v.shape if j is None else v[j].tolist(), fi, fa, r[t].shape if j is None else r[t][j].tolist()))
        cu, cl = extremum(dom, Z, r["wu"], r["bu"], 1), extremum(dom, Z, r["wl"], r["bl"], -1)
        for what, gap in (("upper", r["u"] - cu), ("lower", cl - r["l"])):
            # never looser than the affine bounds; the same, except for a hybrid propagation
            e = gap if method == "forward-hybrid" else np.abs(gap)
            j = int(np.argmax(np.nan_to_num(e, nan=np.inf).max(1)))
            if not e[j].max() <= tol:
                res.violation("%s:extremum %s" % (key, what), "output %d on %s: the constant %s bound %s is not that of the affine bound, %s" % (i, Z[j].tolist(), what, (r["u"] if what == "upper" else r["l"])[j].tolist(), (cu if what == "upper" else cl)[j].tolist()))
        res.outcome(r["u"])
    if n_out == 1:
        r = ref[0]
        cu, cl = extremum(dom, Z, r["wu"], r["bu"], 1), extremum(dom, Z, r["wl"], r["bl"], -1)
        if dom == "box":
            call = {n: (lambda d, f=f: f(d, Z[:, 0], Z[:, 1])) for n, f in (("get_range_box", get_range_box), ("get_upper_box", get_upper_box), ("get_lower_box", get_lower_box))}
        else:
            p = {"1": 1, "2": 2, "inf": np.inf}[dom]
            call = {n: (lambda d, f=f: f(d, Z, EPS, p)) for n, f in (("get_range_noise", get_range_noise), ("get_upper_noise", get_upper_noise), ("get_lower_noise", get_lower_noise))}
        for (fi, fa), d, _ in seen[:3]:
            want = (cu, cl) if not d.ibp else (r["u"], r["l"])
            for fn, f in call.items():
                got = f(d)
                for g, w in zip(got if "range" in fn else (got,), want if "lower" not in fn else want[1:]):
                    g = np.asarray(g, np.float64).reshape(len(Z), -1)
                    res.transitions += g.size
                    if g.shape != w.shape or not np.abs(g - w).max() <= tol:
                        res.violation("%s:%s" % (key, fn), "constant=%s affine=%s: %s" % (fi, fa, "shape %s" % (g.shape,) if g.shape != w.shape else "differs from the bounds of the model by %.5g" % np.abs(g - w).max()))

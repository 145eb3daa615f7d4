"""C03: extrema of affine functions over the input domain, on the domain objects."""
import itertools

import numpy as np

BOUNDS = (
    "every coefficient vector over {-2,-0.5,0,1} in dimension 1-3 (and {-1,0,1} in dimension 4) x 3 offsets x every box with "
    "corners on {-1,-0.25,0,0.5,2} (all of them in dimension 1-2, every pair of intervals reused cyclically above) and every "
    "centre x radius {0,0.25,1.5} x p {1,2,inf}; coefficients shaped (d,), (d,n), (d,2,n); exact extremum by enumeration of the "
    "vertices (the maximiser w/|w| for p=2)"
)
ASSUMPTIONS = ["coefficients, offsets and domains restricted to the stated lattices", "float32 slack 1e-5*magnitude"]
WV = (-2.0, -0.5, 0.0, 1.0)
XV = (-1.0, -0.25, 0.0, 0.5, 2.0)


def tasks(tier):
    out = []
    for be in ("torch", "tensorflow"):
        for d in (1, 2, 3, 4, 5) if tier == "thorough" else (1, 2, 3, 4):
            for dom in ("box", "1", "2", "inf"):
                out.append({"id": "%s%s/d%d" % ("tf/" if be != "torch" else "", dom, d), "dom": dom, "d": d, "backend": be, "cost": 1})
    return out


def run_task(task, res):
    import keras.ops as K
    from decomon.core import BallDomain, BoxDomain

    from mc.common import to_np

    d, dom = task["d"], task["dom"]
    wv = WV if d <= 3 else (-1.0, 0.0, 1.0)
    Wt = np.array(list(itertools.product(wv, repeat=d)), np.float64)  # (n, d)
    n = len(Wt)
    bt = np.take([0.0, -0.75, 1.5], np.arange(n) % 3)
    iv = [(a, b) for a in XV for b in XV if a <= b]
    T = lambda a: K.convert_to_tensor(np.asarray(a, np.float32))
    verts = np.array(list(itertools.product([0, 1], repeat=d)))

    if dom == "box":
        if d <= 2:
            Z = np.array([[[c[0] for c in cs], [c[1] for c in cs]] for cs in itertools.product(iv, repeat=d)])
        else:
            Z = np.array([[[iv[(i * (2 * k + 1) + 4 * k) % len(iv)][j] for k in range(d)] for j in (0, 1)] for i in range(2 * len(iv))])
        doms = [("box", BoxDomain(), Z)]
        # extreme points (B, V, d)
        ext = {"box": np.where(verts[None], Z[:, 1][:, None], Z[:, 0][:, None])}
    else:
        C = np.array(list(itertools.product(XV[1:], repeat=d))) if d <= 3 else np.array([np.take(XV, (np.arange(d) * 2 + k) % 5) for k in range(5)])
        doms, ext = [], {}
        for eps in (0.0, 0.25, 1.5):
            p = {"1": 1, "2": 2, "inf": np.inf}[dom]
            doms.append(("eps%g" % eps, BallDomain(eps=eps, p=p), C))
            if dom == "1":
                dirs = np.concatenate([np.eye(d), -np.eye(d)])
            elif dom == "inf":
                dirs = 2.0 * verts - 1
            else:
                nz = Wt[np.abs(Wt).sum(1) > 0]
                dirs = np.concatenate([nz / np.sqrt((nz**2).sum(1))[:, None], np.zeros((1, d))])
                dirs = np.concatenate([dirs, -dirs])
            ext["eps%g" % eps] = C[:, None] + eps * dirs[None]
    for name, obj, Z in doms:
        E = ext[name]  # every extreme point belongs to the domain and the extremum is reached on one
        V = np.einsum("bvd,nd->bvn", E, Wt) + bt
        hi, lo = V.max(1), V.min(1)
        B = len(Z)
        n2 = n // 2 * 2
        for shape in ("dn", "d2n", "batch1"):
            w = np.repeat(Wt.T[None], B, 0)
            b = np.repeat(bt[None], B, 0)
            H, L = hi, lo
            if shape == "d2n":
                if n2 < 2:
                    continue
                w = w[:, :, :n2].reshape(B, d, 2, n2 // 2)
                b = b[:, :n2].reshape(B, 2, n2 // 2)
                H, L = hi[:, :n2].reshape(b.shape), lo[:, :n2].reshape(b.shape)
            if shape == "batch1":  # the same coefficients for every sample, not repeated over the batch
                w, b = w[:1], b[:1]
            for fn, ref in (("get_upper", H), ("get_lower", L)):
                got = to_np(getattr(obj, fn)(T(Z), T(w), T(b))).astype(np.float64)
                key = "%s/%s/%s" % (name, shape, fn)
                res.states += B
                res.transitions += ref.size
                res.traces += 1
                if got.shape != ref.shape:
                    res.violation(key + ":shape", "shape %s instead of %s" % (got.shape, ref.shape))
                    continue
                err = np.abs(got - ref) - 1e-5 * (1 + np.abs(ref))
                if not np.all(np.isfinite(got)) or err.max() > 0:
                    i = np.unravel_index(int(np.argmax(np.where(np.isfinite(err), err, 1e9))), err.shape)
                    res.violation(key, "%s over %s %s of w=%s b=%s is %g, exact value %g" % (fn, task["id"], Z[i[0]].tolist(), Wt[np.ravel_multi_index(i[1:], ref.shape[1:])].tolist(), b[(0 if len(b) == 1 else i[0],) + i[1:]], got[i], ref[i]))
                res.outcome(got)
                res.sample({"fn": fn, "domain": [task["id"], name], "z": Z[B // 2].tolist(), "got": got[B // 2].ravel()[:4].tolist()})

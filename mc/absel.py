"""Abstract elements (what a LiRPA layer receives) and their concretisations.

An element over a perturbation domain Z is (l, u, Wl, bl, Wu, bu); it denotes every pair (x, y)
with x in Z, l <= y <= u (ibp/hybrid) and Wl.x+bl <= y <= Wu.x+bu (affine/hybrid).  A layer's
transformer is sound when it maps the element to one that still contains (x, layer(y)) for each
of these pairs.  The elements below are enumerated from lattices, the upper and the lower sides
being different on purpose, and the pairs are enumerated at the extreme points of the element.
"""
import itertools

import numpy as np

LAT = (1.0, -1.0, 0.5, 0.0, -0.5, 1.5, -1.5, 0.25)
GAP = (0.0, 0.5, 0.0, 1.0, 0.25)
DOMS = ["box", "linf", "l2", "l1"]


def make_domain(dom):
    from decomon.core import BallDomain, BoxDomain

    if dom == "box":
        return BoxDomain()
    return BallDomain(eps=EPS, p={"linf": np.inf, "l2": 2, "l1": 1}[dom])


EPS = 0.5


class Elem:
    """batch of abstract elements over d inputs for n values"""

    def __init__(self, n, d=2, dom="box", patterns=(0, 1, 2), placements=("raw", "l0", "u0"), cuts=("exact", "loose", "cut"), boxes=None, scale=1.0):
        self.n, self.d, self.dom = n, d, dom
        if dom == "box":
            if boxes is None:
                v = [-1.0, 0.0, 1.0]
                iv = [(a, b) for a in v for b in v if a <= b]
                if d == 1:
                    boxes = [[[a], [b]] for a, b in iv]
                else:
                    pick = [(0, 5), (2, 3), (4, 1), (5, 0), (1, 1), (3, 4)] if d == 2 else [(0, 5, 1), (2, 3, 4)]
                    boxes = [[[iv[i][0] for i in p], [iv[i][1] for i in p]] for p in pick]
            Z0 = np.array(boxes, np.float64)
        else:
            Z0 = np.array([[0.0] * d, [0.5] + [-0.5] * (d - 1)], np.float64)
        rows = list(itertools.product(range(len(Z0)), patterns, placements, cuts))
        B = len(rows)
        self.B = B
        self.rows = rows
        z = np.stack([Z0[r[0]] for r in rows])
        j = np.arange(d * n).reshape(d, n)
        wl = np.zeros((B, d, n))
        wu = np.zeros((B, d, n))
        gap = np.zeros((B, n))
        base = np.zeros((B, n))
        for b, (zi, k, pl, cu) in enumerate(rows):
            wl[b] = np.take(LAT, (3 * j + 5 * k + j * j * (k % 3)) % len(LAT)) * scale
            dw = np.take(LAT, (5 * j + 3 * k + 1) % len(LAT)) * scale
            if k % 3 == 0:
                dw = 0 * dw  # parallel bounds
            wu[b] = wl[b] + dw
            jj = np.arange(n)
            gap[b] = np.take(GAP, (jj + 2 * k + zi) % len(GAP)) * scale
            base[b] = np.take(LAT, (jj * 3 + k) % len(LAT)) * scale
        if dom == "box":
            self.X = self._box_points(z)
        else:
            self.X = self._ball_points(z, dom)
        lo = lambda w, b: self._ext(z, w, b, -1)
        hi = lambda w, b: self._ext(z, w, b, +1)
        # make upper >= lower + gap everywhere on the domain
        shift = -lo(wu - wl, np.zeros((B, n))) + gap
        bl = base.copy()
        bu = bl + shift
        l0 = lo(wl, bl)
        u0 = hi(wu, bu)
        for b, (zi, k, pl, cu) in enumerate(rows):
            s = {"raw": 0 * l0[b], "l0": -l0[b], "u0": -u0[b], "neg": -u0[b] - 0.25, "pos": -l0[b] + 0.25, "tiny": -l0[b] + 0.03125, "mid": -(l0[b] + u0[b]) / 2}[pl]
            bl[b] += s
            bu[b] += s
        l0 = lo(wl, bl)
        u0 = hi(wu, bu)
        l, u = l0.copy(), u0.copy()
        for b, (zi, k, pl, cu) in enumerate(rows):
            r = u0[b] - l0[b]
            if cu == "loose":
                l[b] -= 0.5
                u[b] += 0.25
            elif cu == "cut":
                l[b] += r / 8
                u[b] -= r / 4
            elif cu == "cut2":  # the constant bounds touch zero inside the affine ones
                l[b] = np.where((l0[b] <= 0) & (u0[b] >= 0), 0, l0[b])
        self.z, self.wl, self.wu, self.bl, self.bu, self.l, self.u = [a.astype(np.float32) for a in (z, wl, wu, bl, bu, l, u)]

    def _ext(self, z, w, b, s):
        if self.dom == "box":
            c, r = (z[:, 0] + z[:, 1]) / 2, (z[:, 1] - z[:, 0]) / 2
            return np.einsum("bd,bdn->bn", c, w) + s * np.einsum("bd,bdn->bn", r, np.abs(w)) + b
        if self.dom == "linf":
            nrm = np.abs(w).sum(1)
        elif self.dom == "l1":
            nrm = np.abs(w).max(1)
        else:
            nrm = np.sqrt((w**2).sum(1))
        return np.einsum("bd,bdn->bn", z, w) + s * EPS * nrm + b

    def _box_points(self, z):
        t = np.array(list(itertools.product([0.0, 0.5, 1.0], repeat=z.shape[-1])))
        return z[:, None, 0] + t[None] * (z[:, None, 1] - z[:, None, 0])

    def _ball_points(self, z, dom):
        d = z.shape[-1]
        t = np.array(list(itertools.product([-1.0, -0.5, 0.0, 0.5, 1.0], repeat=d)))
        if dom == "linf":
            nrm = np.abs(t).max(1)
        elif dom == "l1":
            nrm = np.abs(t).sum(1)
        else:
            nrm = np.sqrt((t**2).sum(1))
        t = t / np.maximum(nrm, 1)[:, None]
        return z[:, None] + EPS * t[None]

    def values(self, mode, how="product"):
        """all enumerated (x, y) pairs: Y (B, P, C, n) and validity mask (B, P, C)"""
        B, P = self.X.shape[:2]
        lo = np.full((B, P, self.n), -np.inf)
        hi = np.full((B, P, self.n), np.inf)
        if mode in ("ibp", "hybrid"):
            lo = np.maximum(lo, self.l[:, None])
            hi = np.minimum(hi, self.u[:, None])
        if mode in ("affine", "hybrid"):
            lo = np.maximum(lo, np.einsum("bpd,bdn->bpn", self.X, self.wl.astype(np.float64)) + self.bl[:, None])
            hi = np.minimum(hi, np.einsum("bpd,bdn->bpn", self.X, self.wu.astype(np.float64)) + self.bu[:, None])
        ok = np.all(lo <= hi + 1e-6, -1)
        if how == "product" and self.n <= 8:
            T = np.array(list(itertools.product([0.0, 1.0], repeat=self.n)) + [[0.5] * self.n])
        elif how == "product":
            r = np.arange(self.n)
            T = np.array([[0.0] * self.n, [1.0] * self.n, [0.5] * self.n] + [((r // m) % 2).astype(float) for m in (1, 2, 3, 4)] + [1.0 - ((r // m) % 2) for m in (1, 2, 3, 4)] + [(r == i).astype(float) for i in range(self.n)] + [(r != i).astype(float) for i in range(self.n)])
        else:  # element-wise operators: coordinates are independent
            T = np.repeat(np.linspace(0, 1, 9)[:, None], self.n, 1)
        Y = lo[:, :, None] + T[None, None] * (hi - lo)[:, :, None]
        return Y, np.repeat(ok[:, :, None], len(T), 2)

    def inputs(self, mode, shapes, sl=None):
        """decomon layer inputs (numpy); shapes = list of input shapes whose sizes sum up to n"""
        out, i = [], 0
        for sh in shapes:
            m = int(np.prod(sh))
            s = slice(i, i + m)
            i += m
            B = self.B
            y = lambda a: a[:, s].reshape((B,) + tuple(sh))
            w = lambda a: a[:, :, s].reshape((B, self.d) + tuple(sh))
            if mode == "hybrid":
                out += [self.z, y(self.u), w(self.wu), y(self.bu), y(self.l), w(self.wl), y(self.bl)]
            elif mode == "ibp":
                out += [y(self.u), y(self.l)]
            else:
                out += [self.z, w(self.wu), y(self.bu), w(self.wl), y(self.bl)]
        return out

    def describe(self, b, p, y):
        return {"domain": self.dom, "z": self.z[b].tolist(), "x": self.X[b, p].tolist(), "y": np.asarray(y).tolist(), "wu": self.wu[b].tolist(), "bu": self.bu[b].tolist(), "wl": self.wl[b].tolist(), "bl": self.bl[b].tolist(), "u": self.u[b].tolist(), "l": self.l[b].tolist()}


def unpack_forward(out, mode):
    from mc.common import to_np

    out = to_np(out)
    r = {}
    B = None
    if mode == "hybrid":
        z, u, wu, bu, l, wl, bl = out[:7]
    elif mode == "ibp":
        u, l = out[:2]
        wu = None
    else:
        z, wu, bu, wl, bl = out[:5]
        u = None
    if u is not None:
        B = u.shape[0]
        r["u"], r["l"] = [np.asarray(a, np.float64).reshape(B, -1) for a in (u, l)]
    if wu is not None:
        B = bu.shape[0]
        r["bu"], r["bl"] = [np.asarray(a, np.float64).reshape(B, -1) for a in (bu, bl)]
        o = r["bu"].shape[1]
        r["wu"], r["wl"] = [np.asarray(a, np.float64).reshape(len(a), -1, o) for a in (wu, wl)]
    return r


def unpack_backward(out):
    from mc.common import to_np

    wu, bu, wl, bl = to_np(out)[:4]
    return [np.asarray(a, np.float64) for a in (wu, bu, wl, bl)]


def check(res, key, bound, sign, F, ok, el, Y, tol, what):
    """bound (B,P,C,o) (broadcastable) must be >= F (sign +1) or <= F (sign -1) wherever ok"""
    if not np.all(np.isfinite(bound)):
        res.violation(key + ":nan", "%s %s: non finite bound" % (key, what), {"elem": el.rows[int(np.argwhere(~np.isfinite(bound))[0][0])]})
        return
    err = np.where(ok[..., None], sign * (F - bound), -1e30)
    i = int(np.argmax(err))
    b, p, c, o = np.unravel_index(i, err.shape)
    e = err[b, p, c, o]
    if e > tol:
        res.violation(key + ":" + what, "%s: %s bound of output %d excludes a reachable value by %.5g (value %.6g)" % (key, what, o, e, F[b, p, c, o]), dict(el.describe(b, p, Y[b, p, c]), element=str(el.rows[b]), output=int(o)))


def check_forward(res, key, out, mode, el, Y, ok, F, tol=None):
    from mc.common import tol_for

    B, P, C = ok.shape
    F = np.asarray(F, np.float64).reshape(B, P, C, -1)
    r = unpack_forward(out, mode)
    o = F.shape[-1]
    for n in ("bu", "u"):
        if n in r and (r[n].shape != (B, o)):
            res.violation(key + ":shape", "%s: bounds for %s values, the layer has %s" % (key, r[n].shape, (B, o)))
            return
    t = tol or tol_for(F, r)
    if "u" in r:
        check(res, key, r["u"][:, None, None], 1, F, ok, el, Y, t, "constant-upper")
        check(res, key, r["l"][:, None, None], -1, F, ok, el, Y, t, "constant-lower")
        res.outcome(r["u"])
    if "wu" in r:
        up = np.einsum("bpd,bdo->bpo", el.X, np.broadcast_to(r["wu"], (B,) + r["wu"].shape[1:])) + r["bu"][:, None]
        lo = np.einsum("bpd,bdo->bpo", el.X, np.broadcast_to(r["wl"], (B,) + r["wl"].shape[1:])) + r["bl"][:, None]
        check(res, key, up[:, :, None], 1, F, ok, el, Y, t, "affine-upper")
        check(res, key, lo[:, :, None], -1, F, ok, el, Y, t, "affine-lower")
        res.outcome(r["bu"])
    res.states += B
    res.transitions += int(ok.sum())
    res.traces += 1
    res.sample({"key": key, "mode": mode, "element": str(el.rows[B // 2]), "z": el.z[B // 2].tolist(), "out": {k: np.round(v[B // 2].ravel()[:3], 4).tolist() for k, v in r.items()}})


def check_backward(res, key, out, el, Y, ok, F, tol=None):
    """relaxation of the layer with respect to its (flattened) input y"""
    from mc.common import tol_for

    wu, bu, wl, bl = unpack_backward(out)
    B, P, C = ok.shape
    F = np.asarray(F, np.float64).reshape(B, P, C, -1)
    o = F.shape[-1]
    if wu.shape == bu.shape:  # element-wise slopes
        wu, bu, wl, bl = [a.reshape(len(a), -1) for a in (wu, bu, wl, bl)]
        up = wu[:, None, None] * Y + bu[:, None, None]
        lo = wl[:, None, None] * Y + bl[:, None, None]
    else:
        if wu.shape[-2:] != (Y.shape[-1], o):
            res.violation(key + ":shape", "%s: backward weights %s for %d inputs and %d outputs" % (key, wu.shape, Y.shape[-1], o))
            return
        up = np.einsum("bpcn,bno->bpco", Y, np.broadcast_to(wu, (B,) + wu.shape[1:])) + np.asarray(bu).reshape(-1, 1, 1, o)
        lo = np.einsum("bpcn,bno->bpco", Y, np.broadcast_to(wl, (B,) + wl.shape[1:])) + np.asarray(bl).reshape(-1, 1, 1, o)
    t = tol or tol_for(F, {"wu": wu, "bu": bu})
    check(res, key, up, 1, F, ok, el, Y, t, "backward-upper")
    check(res, key, lo, -1, F, ok, el, Y, t, "backward-lower")
    res.outcome(bu)
    res.outcome(wl)
    res.states += B
    res.transitions += int(ok.sum())
    res.traces += 1
    res.sample({"key": key, "element": str(el.rows[B // 2]), "wu": np.round(wu[B // 2 if len(wu) > 1 else 0].ravel()[:3], 4).tolist()})


MODES = ["ibp", "affine", "hybrid"]


def tensors(arrs):
    import keras.ops as K

    return [K.convert_to_tensor(np.asarray(a, np.float32)) for a in arrs]

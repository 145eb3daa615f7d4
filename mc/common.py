"""Shared machinery: result accumulator, lattices of boxes and points, soundness oracle."""
import itertools

import numpy as np


class Result:
    def __init__(self, prop, task):
        self.prop = prop
        self.task = task
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.violations = []
        self._seen = set()
        self.samples = []
        self.counters = {}
        self.outcomes = set()

    def violation(self, key, what, detail=None):
        key = "%s|%s" % (self.task.get("id", ""), key)
        if key in self._seen:
            return
        self._seen.add(key)
        self.violations.append({"key": key, "what": what, "task": self.task, "detail": detail or {}})

    def count(self, name, n=1):
        self.counters[name] = self.counters.get(name, 0) + int(n)

    def sample(self, s):
        if len(self.samples) < 3:
            self.samples.append(s)

    def outcome(self, arr):
        """record a digest of an observed outcome (vacuity guard)"""
        if len(self.outcomes) < 400:
            a = np.asarray(arr, dtype=np.float64)
            self.outcomes.add(hash(np.round(a[:64].ravel()[:256], 4).tobytes()) & 0xFFFFFFFFFFFF)

    def as_dict(self):
        return {
            "states": int(self.states),
            "transitions": int(self.transitions),
            "traces": int(self.traces),
            "violations": self.violations,
            "samples": self.samples,
            "counters": self.counters,
            "outcomes": sorted(self.outcomes),
        }


def to_np(t):
    import keras

    if isinstance(t, (list, tuple)):
        return [to_np(e) for e in t]
    return np.asarray(keras.ops.convert_to_numpy(t))


# ----------------------------------------------------------------------------- lattices
def intervals(vals):
    return [(l, u) for l in vals for u in vals if l <= u]


def boxes(vals, dim):
    """every box with corners on the lattice vals**dim ; array (N, 2, dim)"""
    iv = intervals(vals)
    out = [[[c[0] for c in cs], [c[1] for c in cs]] for cs in itertools.product(iv, repeat=dim)]
    return np.array(out, dtype=np.float32).reshape(-1, 2, dim)


def points(vals, dim):
    return np.array(list(itertools.product(vals, repeat=dim)), dtype=np.float32)


def refine(vals, k):
    """lattice vals refined with k-1 points strictly inside every gap"""
    out = []
    for a, b in zip(vals[:-1], vals[1:]):
        out += [a + (b - a) * i / float(k) for i in range(k)]
    out.append(vals[-1])
    return out


def inside(bx, pts, tol=1e-6):
    """(B,2,d),(P,d) -> bool (B,P)"""
    return np.all((pts[None] >= bx[:, 0][:, None] - tol) & (pts[None] <= bx[:, 1][:, None] + tol), -1)


def in_ball(c, pts, eps, p, tol=1e-6):
    d = pts[None] - c[:, None]
    if p == 1:
        n = np.abs(d).sum(-1)
    elif p == 2:
        n = np.sqrt((d.astype(np.float64) ** 2).sum(-1))
    else:
        n = np.abs(d).max(-1)
    return n <= eps + tol


# ----------------------------------------------------------------------------- oracle
def unpack(out, ibp, affine):
    """decomon model output -> dict u,l,wu,bu,wl,bl (flattened output dims)"""
    r = {}
    if ibp and affine:
        x, u, wu, bu, l, wl, bl = out[:7]
    elif affine:
        x, wu, bu, wl, bl = out[:5]
        u = l = None
    else:
        u, l = out[:2]
        wu = None
    if u is not None:
        r["u"] = np.asarray(u, np.float64).reshape(len(u), -1)
        r["l"] = np.asarray(l, np.float64).reshape(len(l), -1)
    if wu is not None:
        n = len(bu)
        r["bu"] = np.asarray(bu, np.float64).reshape(n, -1)
        r["bl"] = np.asarray(bl, np.float64).reshape(n, -1)
        o = r["bu"].shape[1]
        r["wu"] = np.asarray(wu, np.float64).reshape(n, -1, o)
        r["wl"] = np.asarray(wl, np.float64).reshape(n, -1, o)
    return r


def tol_for(F, r=None, rel=1e-5, base=2e-5):
    m = float(np.max(np.abs(F))) if F.size else 1.0
    if r:
        for k in ("wu", "wl", "bu", "bl", "u", "l"):
            if k in r and r[k].size:
                a = r[k][np.isfinite(r[k])]
                if a.size:
                    m = max(m, float(np.max(np.abs(a))))
    return base + rel * m


def check_sound(res, key, r, mask, X, F, dom_repr, tol=None, extra=None):
    """r: unpacked bounds for B domains; mask (B,P): which points belong to which domain;
    X (P,d) points, F (P,o) exact values.  Every (domain, point, output) is checked."""
    F = np.asarray(F, np.float64).reshape(len(X), -1)
    X = np.asarray(X, np.float64)
    B, P = mask.shape
    if tol is None:
        tol = tol_for(F, r)
    ok = True
    NEG = -np.inf
    m3 = mask[:, :, None]

    def report(name, err, b, p, o):
        res.violation(
            "%s:%s" % (key, name),
            "%s bound excludes a reachable value: domain %s, x=%s, output %d, excess %.6g" % (name, dom_repr(b), X[p].tolist(), o, err),
            dict(domain=dom_repr(b), x=X[p].tolist(), output=int(o), value=float(F[p, o]), excess=float(err), **(extra or {})),
        )

    for name in ("u", "l"):
        if name in r:
            v = r[name]
            if v.shape[1] != F.shape[1]:
                res.violation(key + ":shape", "bound has %d outputs, network has %d" % (v.shape[1], F.shape[1]))
                return False
            if not np.all(np.isfinite(v)):
                b = int(np.argwhere(~np.isfinite(v))[0][0])
                res.violation("%s:%s-nan" % (key, name), "non finite %s bound for domain %s" % (name, dom_repr(b)), {"domain": dom_repr(b)})
                ok = False
                continue
            # max/min of F over each domain, then compare
            for o in range(F.shape[1]):
                s = 1.0 if name == "u" else -1.0
                Fm = np.where(mask, s * F[None, :, o], NEG)
                best = Fm.max(1)
                err = best - s * v[:, o]
                b = int(np.argmax(err))
                if err[b] > tol:
                    report("constant " + ("upper" if s > 0 else "lower"), err[b], b, int(np.argmax(Fm[b])), o)
                    ok = False
    for s, w, bb in ((1.0, "wu", "bu"), (-1.0, "wl", "bl")):
        if w in r:
            W, Bv = r[w], r[bb]
            if Bv.shape[1] != F.shape[1]:
                res.violation(key + ":shape", "affine bound has %d outputs, network has %d" % (Bv.shape[1], F.shape[1]))
                return False
            if not (np.all(np.isfinite(W)) and np.all(np.isfinite(Bv))):
                res.violation("%s:%s-nan" % (key, w), "non finite affine bound")
                ok = False
                continue
            val = np.einsum("pd,bdo->bpo", X, W) + Bv[:, None]
            err = np.where(m3, s * (F[None] - val), NEG)
            k = int(np.argmax(err))
            b, p, o = np.unravel_index(k, err.shape)
            if err[b, p, o] > tol:
                report("affine " + ("upper" if s > 0 else "lower"), err[b, p, o], b, p, o)
                ok = False
    return ok


def box_repr(bx):
    return lambda b: [bx[b, 0].tolist(), bx[b, 1].tolist()]

"""C13: splitting of boxes: cover, number, aggregation; every random choice of refine_box is enumerated."""
import itertools

import numpy as np

from mc import common, nets
from mc.checks.c10 import NETS

BOUNDS = (
    "refine_boxes: all batches of 1 and 2 boxes of a 9 (d=1), 25 (d=2) and 27 (d=3) box lattice (degenerate and very flat ones "
    "included), shapes (n,d), (n,d,1), (n,2,d/2), n_sub_boxes from 1 to 17; exact cover checked on the cells of the "
    "refined lattice; refine_box: every sequence of random choices (replaced by a controlled chooser) for 2, 3 and 4 (d=1) "
    "parts, greedy splitting up to 6 parts, x 5 functions x 5 networks x 3 methods; results compared with all lattice points"
)
ASSUMPTIONS = ["the number of sub-boxes of refine_boxes is the largest power of two not above the requested number"]


def tasks(tier):
    out = [{"id": "refine_boxes/d%d" % d, "kind": "cover", "d": d, "max": 17 if tier == "quick" else 33, "cost": 1} for d in (1, 2, 3, 4)]
    for n in ("one_input", "relu", "tanh4", "merge", "three_inputs"):
        for m in ("forward-ibp", "forward-hybrid", "forward-affine", "crown", "crown-forward-hybrid"):
            if nets.supported(("res_add",) if n == "merge" else (), m):
                out.append({"id": "refine_box/%s/%s" % (n, m), "kind": "refine", "net": n, "method": m, "cost": 3, "tier": tier})
    return out


def cover(task, res):
    from decomon.wrapper import refine_boxes

    d = task["d"]
    if d == 1:
        B = common.boxes([-1.0, 0.0, 0.5, 3.0], 1)
    elif d == 2:
        B = np.concatenate([common.boxes([-1.0, 0.25, 1.0], 2)[::2], np.array([[[-4, 0], [4, 0.1]], [[0, -8], [0.5, 8]], [[0, 0], [1, 1]]])])
    else:
        B = np.concatenate([common.boxes([-1.0, 0.5], d)[::2], np.array([[[-4, 0, 0, 1][:d], [4, 0.1, 2, 1][:d]], [[0, 0, 0, 0][:d], [0.5, 8, 9, 3][:d]]])])
    batches = [[i] for i in range(len(B))] + [[i, j] for i in range(len(B)) for j in range(len(B)) if (i + 2 * j) % 5 == 0] + [list(range(len(B)))]
    shapes = [(d,), (d, 1)] + ([(2, d // 2)] if d % 2 == 0 else [])
    for bt in batches:
        for sh in shapes:
            for n in range(1, task["max"] + 1) if len(bt) == 1 else (1, 2, 3, 4, 8, 10):
                lo, hi = B[bt, 0].astype(np.float64), B[bt, 1].astype(np.float64)
                L, U = refine_boxes(lo.reshape((-1,) + sh), hi.reshape((-1,) + sh), n)
                res.states += 1
                key = "shape%s" % (sh,)
                want = 2 ** int(np.floor(np.log2(n)))
                if L.shape != (len(bt), want) + sh or U.shape != L.shape:
                    res.violation(key + ":number", "refine_boxes(n_sub_boxes=%d) returned shape %s for %d boxes" % (n, L.shape, len(bt)))
                    continue
                L, U = L.reshape(len(bt), want, d), U.reshape(len(bt), want, d)
                for b in range(len(bt)):
                    # cells of the grid of all cuts: each must be in exactly one sub-box, none outside
                    cuts = [np.unique(np.concatenate([L[b, :, k], U[b, :, k], [lo[b, k], hi[b, k]]])) for k in range(d)]
                    if any(c[0] < lo[b, k] or c[-1] > hi[b, k] for k, c in enumerate(cuts)) or np.any(L[b] > U[b]):
                        res.violation(key + ":outside", "a sub-box of %s leaves it (n_sub_boxes=%d)" % ([lo[b].tolist(), hi[b].tolist()], n), {"batch": bt})
                        continue
                    mids = [(c[1:] + c[:-1]) / 2 if len(c) > 1 else c for c in cuts]
                    pts = np.array(list(itertools.product(*mids)))
                    cnt = np.all((pts[:, None] >= L[b][None]) & (pts[:, None] <= U[b][None]), -1).sum(1)
                    res.transitions += len(pts)
                    flat = any(len(c) == 1 for c in cuts)
                    if np.any(cnt < 1) or (np.any(cnt > 1) and not flat):
                        i = int(np.argmin(cnt))
                        res.violation(key + ":cover", "the sub-boxes of %s do not cover it exactly (n_sub_boxes=%d): %s is in %d of them" % ([lo[b].tolist(), hi[b].tolist()], n, pts[i].tolist(), cnt[i]), {"batch": bt})
        res.traces += 1
    res.outcome(np.ravel(L))
    res.sample({"boxes": B[:3].tolist(), "batches": len(batches)})


class Chooser:
    """replaces numpy.random in the code under test: replays a prefix of choices, then takes 0"""

    def __init__(self, prefix):
        self.prefix, self.log = prefix, []

    def randint(self, n, *a, **k):
        i = len(self.log)
        c = self.prefix[i] if i < len(self.prefix) else 0
        self.log.append((c, n))
        return c


def schedules(run):
    """depth first enumeration of all the choice sequences of run(chooser)"""
    stack = [()]
    while stack:
        pre = stack.pop()
        ch = Chooser(pre)
        yield run(ch), ch
        for i in range(len(ch.log) - 1, len(pre) - 1, -1):
            c, n = ch.log[i]
            base = tuple(x[0] for x in ch.log[:i])
            for alt in range(n - 1, c, -1):
                stack.append(base + (alt,))


def refine(task, res):
    import decomon.wrapper as dw
    from decomon.models import clone

    prog = NETS[task["net"]]
    d = prog[0][1]["dim"]
    model = nets.build(prog)
    model.set_weights(nets.pattern_weights(model, 1))
    full = clone(model, method=task["method"], final_ibp=True, final_affine=True)
    bx = np.array([[[-1.0, -0.5, -1.0], [1.0, 0.75, 0.5]], [[0.25, -1.0, 0.0], [0.25, 1.0, 0.25]], [[-3.0, 0.0, -1.0], [3.0, 0.5, 2.0]]], np.float32)[:, :, :d]
    X = np.concatenate([b[0] + common.points([0.0, 0.125, 0.25, 0.375, 0.5, 0.625, 0.75, 0.875, 1.0] if d < 3 else [0.0, 0.25, 0.5, 0.75, 1.0], d) * (b[1] - b[0]) for b in bx]).astype(np.float32)
    mask = common.inside(bx, X)
    F = nets.predict(model, X).reshape(len(X), -1).astype(np.float64)
    FV = nets.predict(model, np.concatenate([b[0] + common.points([0.0, 1.0], d) * (b[1] - b[0]) for b in bx]))
    n = F.shape[1]
    D = F[:, :, None] - F[:, None, :]
    worst = np.stack([D[mk].max(0) for mk in mask])
    lab = np.array([0, n - 1, 1])
    tgt = np.array([1, 0, 0])
    oh = np.eye(n, dtype=int)
    tol = 1e-4 * (1 + np.abs(F).max())
    whole = dw.get_range_box(full, bx[:, 0], bx[:, 1])
    ibp = task["method"] == "forward-ibp"

    def verify(name, out, w, key, tag):
        res.states += 1
        res.transitions += int(mask[w].sum())
        if name == "get_upper_box":
            v = np.stack([F[mask[i]].max(0) for i in w])
            bad = out.shape != v.shape or np.any(out < v - tol)
            if ibp and not bad and np.any(out > whole[0][w] + tol):
                res.violation(key + ":loose", "refining the box loosened the interval upper bound (%s)" % tag)
        elif name == "get_lower_box":
            v = np.stack([F[mask[i]].min(0) for i in w])
            bad = out.shape != v.shape or np.any(out > v + tol)
            if ibp and not bad and np.any(out < whole[1][w] - tol):
                res.violation(key + ":loose", "refining the box loosened the interval lower bound (%s)" % tag)
        elif name == "get_adv_box":
            v = worst[w, tgt[w], lab[w]]
            bad = out.shape != v.shape or np.any(out < v - tol)
        else:
            v = worst[w, tgt[w], lab[w]]
            bad = out.shape != v.shape  # compared below: value is reached at a vertex of a sub-box
            bad = bad or np.any(out > vmax[w, tgt[w], lab[w]] + tol)
        if bad:
            res.violation(key, "%s refined (%s): %s does not enclose %s" % (name, tag, np.asarray(out).tolist(), np.asarray(v).tolist()))
        res.outcome(out)

    # maximum over all the points that can be vertices of sub-boxes (dyadic lattice) : exact witness set
    vmax = worst
    for w in ([0], [1], [2], [0, 1], [2, 0, 1]):
        w = np.array(w)
        for name in ("get_upper_box", "get_lower_box", "get_adv_box", "check_adv_box"):
            f = getattr(dw, name)
            args = (oh[lab[w]], oh[tgt[w]]) if "adv" in name else (None, None)
            for ns in range(1, 7):
                if ns <= 4 or name != "check_adv_box":
                    out = np.asarray(dw.refine_box(f, full, bx[w, 0], bx[w, 1], ns, *args, random=False))
                    verify(name, out, w, "%s/greedy" % name, "%d parts, boxes %s" % (ns, w.tolist()))
            if len(w) > 2:
                continue
            parts = (2, 3, 4) if d == 1 and len(w) == 1 else (2, 3) if len(w) == 1 and d == 2 else (2,)
            if task["tier"] == "thorough" and len(w) == 1 and d < 3:
                parts = (2, 3, 4)
            for ns in parts:
                real = np.random.randint
                try:

                    def run(ch):
                        np.random.randint = ch.randint
                        return np.asarray(dw.refine_box(f, full, bx[w, 0], bx[w, 1], ns, *args, random=True))

                    for out, ch in schedules(run):
                        np.random.randint = real
                        verify(name, out, w, "%s/random" % name, "%d parts, boxes %s, choices %s" % (ns, w.tolist(), [c[0] for c in ch.log]))
                        res.count("choice sequences")
                finally:
                    np.random.randint = real
    for nsub in range(2, 10):
        u, l = dw.get_range_box(full, bx[:, 0], bx[:, 1], n_sub_boxes=nsub)
        verify("get_upper_box", u, np.arange(3), "n_sub_boxes", "n_sub_boxes=%d" % nsub)
        verify("get_lower_box", l, np.arange(3), "n_sub_boxes", "n_sub_boxes=%d" % nsub)
    res.traces += 1
    res.sample({"net": task["net"], "method": task["method"], "boxes": bx.tolist()})


def run_task(task, res):
    (cover if task["kind"] == "cover" else refine)(task, res)

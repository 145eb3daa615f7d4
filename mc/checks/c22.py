"""C22: robust losses and metrics against their definition and against the network, on every lattice point."""
import itertools

import numpy as np

from mc import common, nets

C = nets.chain
NETS = {
    "relu": C(2, ("dense", {"u": 3, "act": "relu"}), ("dense", {"u": 3})),
    "tanh": C(2, ("dense", {"u": 2, "act": "tanh"}), ("dense", {"u": 3})),
    "linear": C(2, ("dense", {"u": 3})),
    "two": C(2, ("dense", {"u": 2, "act": "relu"}), ("dense", {"u": 2, "act": "sigmoid"}), ("dense", {"u": 2})),
    "merge": nets.word_program(("res_add", "relu"), out=3),
}
DOMAINS = {"box": None, "l2": (0.75, 2), "l1": (1.0, 1), "linf": (0.5, np.inf)}
FINALS = {"ibp": (True, False), "affine": (False, True), "hybrid": (True, True)}
BOUNDS = (
    "5 networks of 2 or 3 outputs x 2 weights (4 in the thorough tier) x 7 methods x constant, affine or both final bounds x boxes and "
    "l1, l2, linf balls x every non trivial set of source labels and every target label x all domains and points of the lattices, for "
    "AdversarialScore, AdversarialCheck, UpperScore, get_upper_loss, get_lower_loss, get_adv_loss (with and without softmax, sigmoid "
    "and clipping), the cross-entropy, asymptotic and radius robust models, and the bounds of the categorical cross-entropy"
)
ASSUMPTIONS = [
    "networks, domains and points restricted to the stated lattices",
    "the backward variants of the metric and loss layers, which expect bounds the converters do not produce, are out of scope",
]
ORACLE = "a numpy implementation of the definitions in double precision, and keras' forward pass of the network at every lattice point."


def tasks(tier):
    out = []
    for n in NETS:
        for me in nets.METHODS:
            if n == "merge" and not nets.is_forward(me):
                continue
            for f in FINALS:
                if nets.is_forward(me) and f != me.split("-")[1]:
                    continue
                if tier == "quick" and n in ("linear", "two") and me.startswith("crown-forward"):
                    continue
                for dom in DOMAINS:
                    if tier == "quick" and dom == "linf" and n != "relu":
                        continue
                    out.append({"id": "%s/%s/%s/%s" % (n, me, f, dom), "kind": "model", "net": n, "method": me, "final": f, "dom": dom, "tier": tier, "cost": 2})
    for n in NETS:
        for me in ("forward-ibp", "forward-affine", "forward-hybrid"):
            for dom in ("box", "l2"):
                out.append({"id": "cce/%s/%s/%s" % (n, me, dom), "kind": "cce", "net": n, "method": me, "dom": dom, "tier": tier, "cost": 1})
    for f in FINALS:
        out.append({"id": "tf/relu/crown/%s" % f, "kind": "model", "net": "relu", "method": "crown", "final": f, "dom": "box", "tier": tier, "cost": 6, "backend": "tensorflow"})
    return out


def run_task(task, res):
    globals()["run_" + task["kind"]](task, res)


def domain(task, out):
    """lattices: domains, points, masks, representation and domain option"""
    from decomon.core import BallDomain

    dom = DOMAINS[task["dom"]]
    X = common.points(np.round(np.arange(-2, 2.01, 0.25), 3).tolist(), 2)
    if dom is None:
        z = common.boxes([-1.0, 0.0, 0.5, 1.5], 2)[::3]
        return z, X, common.inside(z, X), common.box_repr(z), {}
    z = common.points([-1.0, 0.0, 0.75], 2)
    return z, X, common.in_ball(z, X, dom[0], dom[1]), (lambda b: [z[b].tolist(), task["dom"]]), {"perturbation_domain": BallDomain(eps=dom[0], p=dom[1])}


def maximise(task, z, w, b):
    """exact maximum over every domain of w.x + b ; w (B, d, ...), b (B, ...)"""
    dom = DOMAINS[task["dom"]]
    ex = (slice(None), slice(None)) + (None,) * (w.ndim - 2)
    z = z.astype(np.float64)
    if dom is None:
        return (np.maximum(w, 0) * z[:, 1][ex] + np.minimum(w, 0) * z[:, 0][ex]).sum(1) + b
    eps, p = dom
    q = {1: np.abs(w).max(1), 2: np.sqrt((w**2).sum(1)), np.inf: np.abs(w).sum(1)}[p]
    return (w * z[ex]).sum(1) + eps * q + b


def softmax(F):
    e = np.exp(F - F.max(-1, keepdims=True))
    return e / e.sum(-1, keepdims=True)


def compare(res, key, got, want, tol, what):
    got = np.asarray(got, np.float64)
    want = np.asarray(want, np.float64)
    if got.shape != want.shape:
        res.violation(key + ":shape", "%s has the shape %s instead of %s" % (what, got.shape, want.shape))
        return False
    e = np.abs(got - want) / (1 + np.abs(want))
    if not e.max() <= tol:
        i = np.unravel_index(int(np.argmax(np.where(np.isfinite(e), e, np.inf))), e.shape)
        res.violation(key, "%s is %.6g instead of %.6g at %s" % (what, got[i], want[i], [int(j) for j in i]))
        return False
    return True


def above(res, key, got, reached, what, tol=1e-4):
    e = np.asarray(reached, np.float64) - np.asarray(got, np.float64)
    if not (e <= tol * (1 + np.abs(reached))).all():
        i = np.unravel_index(int(np.argmax(np.where(np.isfinite(e), e, np.inf))), e.shape)
        res.violation(key, "%s is %.6g, but %.6g is reached, at %s" % (what, np.asarray(got)[i], np.asarray(reached)[i], [int(j) for j in i]))


def run_model(task, res):
    import keras.ops as K
    from decomon import get_adv_loss, get_lower_loss, get_model, get_upper_loss
    from decomon.metrics import (
        build_asymptotic_crossentropy_model,
        build_crossentropy_model,
        build_formal_adv_check_model,
        build_formal_adv_model,
        build_formal_upper_model,
        build_radius_robust_model,
    )
    from decomon.models import clone

    ibp, affine = FINALS[task["final"]]
    z, X, mask, rep, kw = domain(task, res)
    B = len(z)
    for k in (0, 1) if task["tier"] == "quick" else (0, 1, 2, 5):
        model = nets.build(NETS[task["net"]])
        model.set_weights(nets.pattern_weights(model, k))
        F = nets.predict(model, X).astype(np.float64)
        n = F.shape[1]
        d = clone(model, method=task["method"], final_ibp=ibp, final_affine=affine, **kw)
        r = common.unpack(d.predict_on_single_batch_np(z), d.ibp, d.affine)
        hi = np.array([F[m].max(0) for m in mask])
        lo = np.array([F[m].min(0) for m in mask])
        gap = F[:, :, None] - F[:, None, :]  # f_t - f_s at every point
        G = np.array([gap[m].max(0) for m in mask])  # (B, t, s) reached
        # exact scores from the bounds: upper bounds of f_t - f_s, lower ones, upper bounds of f_o
        P, Q, U, L = [], [], [], []
        if d.ibp:
            P.append(r["u"][:, :, None] - r["l"][:, None, :])
            Q.append(r["l"][:, :, None] - r["u"][:, None, :])
            U.append(r["u"])
            L.append(r["l"])
        if d.affine:
            P.append(maximise(task, z, r["wu"][:, :, :, None] - r["wl"][:, :, None, :], r["bu"][:, :, None] - r["bl"][:, None, :]))
            Q.append(maximise(task, z, r["wl"][:, :, :, None] - r["wu"][:, :, None, :], r["bl"][:, :, None] - r["bu"][:, None, :]))
            U.append(maximise(task, z, r["wu"], r["bu"]))
            L.append(-maximise(task, z, -r["wl"], -r["bl"]))
        # --- formal scores
        adv, chk, upp = build_formal_adv_model(d), build_formal_adv_check_model(d), build_formal_upper_model(d)
        for size in range(1, n):
            for S in itertools.combinations(range(n), size):
                y = np.zeros((B, n), np.float32)
                y[:, S] = 1
                T = [t for t in range(n) if t not in S]
                sel = np.ix_(range(B), T, S)
                got = common.to_np(adv([z, y]))
                compare(res, "w%d/adv-definition" % k, got, np.min([p[sel].max((1, 2)) for p in P], 0), 1e-4, "the adversarial score for the sources %s" % (S,))
                above(res, "w%d/adv-sound" % k, got, G[sel].max((1, 2)), "the adversarial score for the sources %s" % (S,))
                got = common.to_np(chk([z, y]))
                compare(res, "w%d/check-definition" % k, got, np.min([p[sel].max((1, 2)) for p in Q], 0), 1e-4, "the adversarial check for the sources %s" % (S,))
                if task["dom"] != "l2" or not d.affine:  # the maximum of an affine function is reached on the lattice
                    above(res, "w%d/check-sound" % k, -got, -G[sel].max((1, 2)), "the opposite of the adversarial check for the sources %s" % (S,))
                res.states += 2 * B
                res.transitions += 2 * int(mask.sum())
        for y in itertools.product((0.0, 1.0, 0.5), repeat=n):
            Y = np.repeat(np.array([y], np.float32), B, 0)
            got = common.to_np(upp([z, Y]))
            compare(res, "w%d/upper-definition" % k, got, np.min([(u * Y).sum(-1) for u in U], 0), 1e-4, "the upper score for %s" % (y,))
            S = F @ np.array(y)
            above(res, "w%d/upper-sound" % k, got, np.array([S[m].max() for m in mask]), "the upper score for %s" % (y,))
            res.states += B
            res.transitions += int(mask.sum())
        # --- losses, on the whole batch and sample by sample
        pred = get_model(d).predict_on_single_batch_np(z)
        batches = [np.arange(B)] + [np.array([b]) for b in range(0, B, 5)]
        if d.ibp and d.affine:
            # bounds of the same type whose tightest kind depends on the sample
            pred, d_in, n_out = np.array(pred), r["wu"].shape[1], n
            even = np.arange(B) % 2 == 0
            pred[even, d_in, -2 * n_out : -n_out] += 0.75  # affine upper
            pred[even, d_in, -n_out:] -= 0.5  # affine lower
            pred[~even, -1, -2 * n_out : -n_out] += 0.5  # constant upper
            pred[~even, -1, -n_out:] -= 1.0  # constant lower
            e3 = even[:, None, None]
            P = [P[0] + np.where(e3, 0, 1.5), P[1] + np.where(e3, 1.25, 0)]
            U = [U[0] + np.where(even[:, None], 0, 0.5), U[1] + np.where(even[:, None], 0.75, 0)]
            L = [L[0] - np.where(even[:, None], 0, 1.0), L[1] - np.where(even[:, None], 0.5, 0)]
        for j, ref in enumerate((np.zeros((B, n)), lo + 0.25, hi * 0.5 - 0.1)):
            ref = ref.astype(np.float32)
            for name, loss, sign, bounds in (("upper", get_upper_loss(d), 1, U), ("lower", get_lower_loss(d), -1, L)):
                per = np.min([(sign * (b - ref)).max(-1) for b in bounds], 0)
                reach = (sign * ((hi if sign > 0 else lo) - ref)).max(-1)
                for idx in batches:
                    got = common.to_np(loss(K.convert_to_tensor(ref[idx]), K.convert_to_tensor(pred[idx])))
                    compare(res, "w%d/%s-loss" % (k, name), got, per[idx].mean(), 1e-4, "the %s loss of the samples %s" % (name, idx[:3].tolist()))
                    above(res, "w%d/%s-loss-sound" % (k, name), got, reach[idx].mean(), "the %s loss" % name)
                    res.states += len(idx)
                    res.transitions += int(mask[idx].sum())
        SF = softmax(F)
        sgap = SF[:, :, None] - SF[:, None, :]
        SG = np.array([sgap[m].max(0) for m in mask])
        for shift, (sig, clip, soft) in itertools.product(range(n), itertools.product((False, True), (None, -1.0, 0.25), (False, True))):
            lab = (np.arange(B) + shift) % n
            Y = np.eye(n, dtype=np.float32)[lab]
            loss = get_adv_loss(d, sigmoid=sig, clip_value=clip, softmax=soft)
            keep = [[t for t in range(n) if t != l] for l in lab]
            post = lambda v: 1 / (1 + np.exp(-v)) if sig else v
            for idx in batches:
                if soft:
                    reach = np.array([SG[b, keep[b], lab[b]].max() for b in idx])
                else:
                    reach = np.array([G[b, keep[b], lab[b]].max() for b in idx])
                got = common.to_np(loss(K.convert_to_tensor(Y[idx]), K.convert_to_tensor(pred[idx])))
                name = "w%d/adv-loss/%s/%s/%s" % (k, "sigmoid" if sig else "raw", clip, "softmax" if soft else "logits")
                if not soft:
                    raw = np.min([[p[b, keep[b], lab[b]].max() for b in idx] for p in P], 0)
                    raw = raw if clip is None else np.maximum(raw, clip)
                    compare(res, name, got, post(raw).mean(), 1e-4, "the adversarial loss of the samples %s" % idx[:3].tolist())
                reach = reach if clip is None else np.maximum(reach, clip)
                above(res, name + ":sound", got, post(reach).mean(), "the adversarial loss of the samples %s" % idx[:3].tolist())
                res.states += len(idx)
                res.transitions += int(mask[idx].sum())
        # --- cross entropy, asymptotic cross entropy, robust radius
        ce = np.log(np.exp(F - F.max(-1, keepdims=True)).sum(-1, keepdims=True)) + F.max(-1, keepdims=True) - F
        got = common.to_np(build_crossentropy_model(d)(z))
        above(res, "w%d/cross-entropy" % k, got, np.array([ce[m].max(0) for m in mask]), "the cross-entropy of the label")
        if not d.affine:
            m = r["u"].max(-1, keepdims=True)
            compare(res, "w%d/cross-entropy-definition" % k, got, np.log(np.exp(r["u"] - m).sum(-1, keepdims=True)) + m - r["l"], 1e-4, "the cross-entropy")
        got = common.to_np(build_asymptotic_crossentropy_model(d)(z))
        off = np.where(np.eye(n, dtype=bool)[None], -np.inf, G).max(1)
        above(res, "w%d/asymptotic" % k, got, np.maximum(off, -1), "the asymptotic cross-entropy of the label")
        if not d.affine:
            compare(res, "w%d/asymptotic-definition" % k, got, np.maximum(np.where(np.eye(n, dtype=bool)[None], -np.inf, P[0]).max(1), -1), 1e-4, "the asymptotic cross-entropy")
        res.states += 2 * B
        res.transitions += 2 * int(mask.sum())
        if k == 0:  # large outputs: the exponentials have to be scaled
            last = [l for l in model.layers if l.weights][-1]
            w0 = last.get_weights()
            last.set_weights([300.0 * w for w in w0])
            F3 = nets.predict(model, X).astype(np.float64)
            ce = np.log(np.exp(F3 - F3.max(-1, keepdims=True)).sum(-1, keepdims=True)) + F3.max(-1, keepdims=True) - F3
            got = common.to_np(build_crossentropy_model(d)(z))
            above(res, "w%d/cross-entropy-large" % k, got, np.array([ce[m].max(0) for m in mask]), "the cross-entropy of the label, with large outputs")
            if not np.isfinite(got).all():
                res.violation("w%d/cross-entropy-finite" % k, "the cross-entropy is not finite with large outputs: %s" % got[~np.isfinite(got).all(1)][0].tolist())
            last.set_weights(w0)
            res.states += B
            res.transitions += int(mask.sum())
        if d.affine and task["dom"] == "box":
            got = common.to_np(build_radius_robust_model(d)(z)).astype(np.float64)
            cen, rad = (z[:, 0] + z[:, 1]) / 2.0, np.maximum((z[:, 1] - z[:, 0]) / 2.0, 1e-7)
            off = np.where(np.eye(n, dtype=bool)[None], -np.inf, gap).max(1)  # (P, s): best other label
            sc = (np.abs(X[None] - cen[:, None]) / rad[:, None]).max(-1)  # (B, P)
            for s in range(n):
                bad = mask & (off[None, :, s] > 1e-4) & (sc < (1 - got[:, s])[:, None] - 1e-3)
                if bad.any():
                    b, p = np.argwhere(bad)[0]
                    res.violation("w%d/radius" % k, "label %d is declared robust in the box %s up to the fraction %.4f, but it is not at %s, at the fraction %.4f" % (s, rep(b), 1 - got[b, s], X[p].tolist(), sc[b, p]))
            # definition: the largest fraction of the box where the affine bounds exclude every other label, at most 2
            w = r["wu"][:, :, :, None] - r["wl"][:, :, None, :]
            b_ = r["bu"][:, :, None] - r["bl"][:, None, :]
            score = np.einsum("bdts,bd->bts", w, cen.astype(np.float64)) + b_
            den = np.maximum(np.einsum("bdts,bd->bts", np.abs(w), rad.astype(np.float64)), 1e-7)
            e = np.minimum(-score / den, 2.0)
            want = np.where(np.eye(n, dtype=bool)[None], -np.inf, 1 - e).max(1)
            sure = (den.min((1, 2)) > 1e-3)[:, None] & np.ones((1, n), bool)
            # off diagonal differences only
            dn = np.where(np.eye(n, dtype=bool)[None], np.inf, den).min(1)
            ok = dn > 1e-3
            compare(res, "w%d/radius-definition" % k, np.where(ok, got, 0), np.where(ok, np.maximum(want, -1), 0), 1e-3, "the robust radius score")
            res.states += B
            res.transitions += int(mask.sum())
        res.traces += 1
        res.outcome(got)
    res.sample({"net": task["net"], "method": task["method"], "final": task["final"], "domain": task["dom"], "scores": np.round(got[B // 2], 4).tolist()})


def run_cce(task, res):
    import keras.ops as K
    from decomon.core import BallDomain, BoxDomain
    from decomon.metrics.utils import categorical_cross_entropy
    from decomon.models import clone

    z, X, mask, rep, kw = domain(task, res)
    for k in (0, 1) if task["tier"] == "quick" else (0, 1, 2, 5):
        model = nets.build(NETS[task["net"]])
        model.set_weights(nets.pattern_weights(model, k))
        F = nets.predict(model, X).astype(np.float64)
        ce = np.log(np.exp(F - F.max(-1, keepdims=True)).sum(-1, keepdims=True)) + F.max(-1, keepdims=True) - F
        d = clone(model, method=task["method"], **kw)
        dom = kw.get("perturbation_domain", BoxDomain())
        out = [K.convert_to_tensor(t) for t in d.predict_on_single_batch_np(z)]
        got = [common.to_np(t) for t in categorical_cross_entropy(out, mode=task["method"].split("-")[1], perturbation_domain=dom)]
        r = common.unpack(got, d.ibp, d.affine)
        fin = np.ones(len(z), bool)
        for v in r.values():
            fin &= np.isfinite(v.reshape(len(v), -1)).all(1)
        common.check_sound(res, "w%d" % k, {a: v[fin] for a, v in r.items()}, mask[fin], X, ce, lambda b: rep(int(np.flatnonzero(fin)[b])))
        if not fin.all():
            res.violation("w%d:nan" % k, "non finite bounds of the cross-entropy for the domain %s" % (rep(int(np.argmin(fin))),))
        res.states += len(z)
        res.transitions += int(mask.sum())
        res.traces += 1
        res.outcome(got[0])

"""C10: adversarial certificates in boxes; every verdict is compared with the network on all lattice points and vertices."""
import itertools

import numpy as np

from mc import common, nets

DR = ("dense", {"u": 2, "act": "relu"})
C = nets.chain
NETS = {
    "linear": C(2, ("dense", {"u": 3})),
    "relu": C(2, ("dense", {"u": 3, "act": "relu"}), ("dense", {"u": 3})),
    "relu2": C(2, DR, DR),
    "softmax": C(2, DR, ("dense", {"u": 3, "act": "softmax"})),
    "tanh4": C(2, ("dense", {"u": 2, "act": "tanh"}), ("dense", {"u": 4})),
    "merge": nets.word_program(("res_add", "res_max"), out=3),
    "conv": nets.word_program(("conv",), out=3),
    "one_input": C(1, ("dense", {"u": 3, "act": "relu"}), ("dense", {"u": 3})),
    "three_inputs": C(3, ("dense", {"u": 3, "act": "relu"}), ("dense", {"u": 2})),
    "bn": nets.word_program(("bn", "relu"), out=2),
}
METHODS = ["keras"] + nets.METHODS
BOUNDS = (
    "10 networks (2-4 classes, 1-3 inputs) x 9 ways of giving the model (keras model, 7 methods, both output modes, label dependent "
    "backward bounds) x all non empty source and target sets x 3 ways of giving labels x n_sub_boxes in {1,2,3,4,8} x 2 weight "
    "patterns x all boxes with corners on {-1,-0.25,0.5,1}^d (a quarter of them for d=2, an eighth for d=3); verdicts compared with a refined lattice "
    "and with all vertices of the box"
)
ASSUMPTIONS = ["labels of each sample given as booleans per class or as class indices", "the positive check is witnessed by a vertex of the box (its bound is affine)"]


def tasks(tier):
    out = []
    for n in NETS:
        for m in METHODS + ["back_bounds"]:
            word = {"merge": ("res_add",), "conv": ("conv",)}.get(n, ())
            if m == "keras" and n == "merge":
                continue
            mm = "crown" if m in ("keras", "back_bounds") else m
            if not nets.supported(word, mm):
                continue
            out.append({"id": "%s/%s" % (n, m), "net": n, "method": m, "patterns": [0, 1] if tier == "quick" else [0, 1, 2, 3], "tier": tier, "cost": 2})
    for m in ("keras", "forward-hybrid"):
        out.append({"id": "tf/relu/%s" % m, "net": "relu", "method": m, "patterns": [1], "tier": "quick", "cost": 10, "backend": "tensorflow"})
    return out


def subsets(n):
    return [c for k in range(1, n + 1) for c in itertools.combinations(range(n), k)]


def onehot(c, n):
    v = np.zeros(n, dtype=int)
    v[list(c)] = 1
    return v


def vertices(bx):
    d = bx.shape[-1]
    return np.stack([bx[:, [(i >> k) & 1 for k in range(d)], np.arange(d)] for i in range(2**d)], 1)  # (B, 2^d, d)


def logits(model, prog, X, softmax):
    F = nets.predict(model, X).reshape(len(X), -1).astype(np.float64)
    return F


def run_task(task, res):
    from decomon import check_adv_box, get_adv_box, get_range_box
    from decomon.models import clone
    from keras.layers import Input

    prog = NETS[task["net"]]
    d = prog[0][1]["dim"]
    base = [-1.0, -0.25, 0.5, 1.0]
    bx = common.boxes(base, d)
    bx = bx[:: {1: 1, 2: 4, 3: 16}[d]]
    lat = common.refine(base, {1: 6, 2: 3, 3: 2}[d])
    X = common.points(lat, d)
    mask = common.inside(bx, X)
    V = vertices(bx)
    softmax = task["net"] == "softmax"
    for k in task["patterns"]:
        model = nets.build(prog)
        model.set_weights(nets.pattern_weights(model, k))
        ref = model
        if softmax:  # verdicts are about the logits, in the same order as the probabilities
            p2 = [list(n) for n in prog[:-1]] + [["dense", {"u": 3}, prog[-1][2]]]
            ref = nets.build(p2)
            ref.set_weights(model.get_weights())
        F = nets.predict(ref, X).reshape(len(X), -1).astype(np.float64)
        FV = nets.predict(ref, V.reshape(-1, d)).reshape(len(bx), -1, F.shape[1]).astype(np.float64)
        n = F.shape[1]
        m = task["method"]
        if m == "keras":
            models = [("keras", model)]
        elif m == "back_bounds":
            models = [("back", clone(model, back_bounds=[Input((n, n))]))]
        else:
            models = [(m, clone(model, method=m)), (m + "/both", clone(model, method=m, final_ibp=True, final_affine=True))]
        # worst[t, s] over the points of each box
        diff = F[:, :, None] - F[:, None, :]
        worst = np.stack([diff[mk].max(0) for mk in mask])
        vworst = (FV[:, :, :, None] - FV[:, :, None, :]).max(1)
        tol = 1e-4 * (1 + np.abs(F).max())
        for name, dm in models:
            combos = []
            for S in subsets(n):
                for T in [None] + subsets(n):
                    combos.append((S, T))
            if len(combos) > 60:
                combos = [c for c in combos if len(c[0]) == 1 or c[1] is None] + [c for c in combos if len(c[0]) > 1][::5]
            if name == "keras":  # converts the model again at each call
                combos = combos[:: 9 if task["tier"] == "quick" else 2]
            elif task["tier"] == "quick" and k != task["patterns"][0]:
                combos = combos[1::3]
            if task.get("backend") == "tensorflow":
                combos = combos[::3]
            for i, (S, T) in enumerate(combos):
                TT = T if T is not None else tuple(t for t in range(n) if t not in S)
                for nsub in ([1, (2, 3, 4, 8)[i % 4]] if name not in ("back",) else [1, 2]):
                    for rep in (0, 1, 2) if nsub == 1 and name != "back" else (0,):
                        if rep == 0:
                            s = np.tile(onehot(S, n), (len(bx), 1))
                            t = None if T is None else np.tile(onehot(T, n), (len(bx), 1))
                        elif rep == 1:
                            if len(S) > 1 or (T is not None and len(T) > 1):
                                continue
                            s, t = int(S[0]), None if T is None else int(T[0])
                        else:
                            if len(S) == n or (T is not None and len(T) == n):
                                continue
                            s = np.tile(np.array(S), (len(bx), 1))
                            t = None if T is None else np.tile(np.array(T), (len(bx), 1)).tolist()
                        if not TT:
                            continue
                        if name == "back" and len(S) > 1:
                            continue
                        key = "%s/w%d" % (name, k)
                        sc = np.asarray(get_adv_box(dm, bx[:, 0], bx[:, 1], s, t, n_sub_boxes=nsub))
                        w = worst[:, list(TT)][:, :, list(S)].max((1, 2))
                        bad = np.argwhere(~(sc >= w - tol))
                        res.states += len(bx)
                        res.transitions += len(bx) * len(S) * len(TT)
                        res.count("certified", int((sc < 0).sum()))
                        if sc.shape != (len(bx),):
                            res.violation(key + ":shape", "one score per box expected, got %s" % (sc.shape,))
                        elif len(bad):
                            b = int(bad[0, 0])
                            res.violation(key + ":score", "score %.5f of box %s sources %s targets %s (n_sub_boxes=%d) is below the reached %.5f" % (sc[b], bx[b].tolist(), S, T, nsub, w[b]), {"labels": rep})
                        if nsub == 1 and name != "back":
                            ck = np.asarray(check_adv_box(dm, bx[:, 0], bx[:, 1], s, t))
                            vw = vworst[:, list(TT)][:, :, list(S)].max((1, 2))
                            bad = np.argwhere(~(ck <= vw + tol))
                            res.count("attacks", int((ck > 0).sum()))
                            if len(bad):
                                b = int(bad[0, 0])
                                res.violation(key + ":check", "check_adv_box returned %.5f for box %s sources %s targets %s but no vertex exceeds %.5f" % (ck[b], bx[b].tolist(), S, T, vw[b]))
                        res.outcome(sc)
            if name == "back":
                continue
            for nsub in (1, 2, 3, 4, 8):
                u, l = get_range_box(dm, bx[:, 0], bx[:, 1], n_sub_boxes=nsub)
                common.check_sound(res, "%s/w%d/range%d" % (name, k, nsub), {"u": u.astype(float), "l": l.astype(float)}, mask, X, F, common.box_repr(bx))
                res.transitions += int(mask.sum())
            # labels different from a sample to another
            lab = np.arange(len(bx)) % n
            tgt = (lab + 1 + (np.arange(len(bx)) // n) % (n - 1)) % n
            for reps in ((np.eye(n, dtype=int)[lab], np.eye(n, dtype=int)[tgt]), (lab, tgt)):
                for nsub in (1, 4):
                    sc = get_adv_box(dm, bx[:, 0], bx[:, 1], reps[0], reps[1], n_sub_boxes=nsub)
                    w = worst[np.arange(len(bx)), tgt, lab]
                    if not np.all(sc >= w - tol):
                        b = int(np.argmin(sc - w))
                        res.violation("%s/w%d:mixed" % (name, k), "score %.5f of box %s source %d target %d is below the reached %.5f" % (sc[b], bx[b].tolist(), lab[b], tgt[b], w[b]))
                ck = check_adv_box(dm, bx[:, 0], bx[:, 1], reps[0], reps[1])
                if not np.all(ck <= vworst[np.arange(len(bx)), tgt, lab] + tol):
                    res.violation("%s/w%d:mixed-check" % (name, k), "check_adv_box is above the maximum over the box")
            # sets of labels of different sizes from a sample to another
            pairs = [(S, T) for S in subsets(n) for T in subsets(n)]
            if name == "keras":
                pairs = pairs[::5]
            for off in range(0, len(pairs), len(bx) if len(pairs) > len(bx) else len(pairs)):
                rows = [pairs[(off + i) % len(pairs)] for i in range(len(bx))]
                s, t = np.array([onehot(S, n) for S, _ in rows]), np.array([onehot(T, n) for _, T in rows])
                w = np.array([worst[i][np.ix_(list(T), list(S))].max() for i, (S, T) in enumerate(rows)])
                for nsub in (1, 4):
                    sc = np.asarray(get_adv_box(dm, bx[:, 0], bx[:, 1], s, t, n_sub_boxes=nsub))
                    res.states += len(bx)
                    if not np.all(sc >= w - tol):
                        b = int(np.argmin(sc - w))
                        res.violation("%s/w%d:mixed-sets" % (name, k), "score %.5f of box %s sources %s targets %s (n_sub_boxes=%d) is below the reached %.5f" % (sc[b], bx[b].tolist(), rows[b][0], rows[b][1], nsub, w[b]))
                ck = np.asarray(check_adv_box(dm, bx[:, 0], bx[:, 1], s, t))
                vw = np.array([vworst[i][np.ix_(list(T), list(S))].max() for i, (S, T) in enumerate(rows)])
                if not np.all(ck <= vw + tol):
                    res.violation("%s/w%d:mixed-sets-check" % (name, k), "check_adv_box is above the maximum over the box")
        res.traces += len(models)
    res.sample({"net": task["net"], "method": task["method"], "boxes": len(bx), "classes": n})

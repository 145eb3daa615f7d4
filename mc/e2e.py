"""End-to-end exploration step shared by several checks: one program x one method x options."""
import numpy as np

from mc import common, nets


def convert(model, method, **kw):
    from decomon.models import clone

    return clone(model, method=method, **kw)


def explore_box(res, key, prog, method, bx, X, mask, patterns=(0, 1), values=None, seq=False, outputs=None, **kw):
    """convert prog with every weight pattern and check every (box, point, output)"""
    for k in patterns:
        model = nets.build(prog, seq=seq, outputs=outputs)
        W = nets.pattern_weights(model, k) if values is None else nets.pattern_weights(model, k, values)
        model.set_weights(W)
        F = nets.predict(model, X).reshape(len(X), -1)
        d = convert(model, method, **kw)
        out = d.predict_on_single_batch_np(bx)
        r = common.unpack(out, d.ibp, d.affine)
        common.check_sound(res, "%s/w%d" % (key, k), r, mask, X, F, common.box_repr(bx), extra={"method": method, "pattern": k, "options": {a: str(b) for a, b in kw.items()}})
        # what was explored: every domain is a start state, every (domain, reachable point) a transition
        res.states += len(bx)
        res.transitions += int(mask.sum())
        res.traces += 1
        for n in ("u", "l", "bu"):
            if n in r:
                res.outcome(r[n])
        if k == patterns[0]:
            res.sample({"program": prog, "method": method, "box": [bx[len(bx) // 2, 0].tolist(), bx[len(bx) // 2, 1].tolist()], "bounds": {n: np.round(r[n][len(bx) // 2].ravel()[:4], 5).tolist() for n in r}})

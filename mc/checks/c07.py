"""C07: forward propagation through the layers that merge several tensors."""
import itertools

from mc import absel

BOUNDS = (
    "Add/Average/Maximum/Concatenate with 1-4 operands, Subtract, Minimum, Multiply with 2 (and 3 where accepted), Dot with the "
    "axes it accepts, operands of rank 1-3, x 3 modes x 4 kinds of domain; abstract elements: 2-6 domains x 4 affine patterns x 4 "
    "placements around zero x 3 relations of the constant and affine bounds; values: all corner combinations of the operands"
)
ASSUMPTIONS = ["elements and values restricted to the stated lattices", "float32 slack 2e-5 + 1e-5*magnitude"]


def configs():
    c = []
    for m in ("Add", "Average", "Maximum", "Minimum", "Multiply"):
        for n in (2, 3, 4):
            c.append((m, {}, [(2,)] * n))
        c.append((m, {}, [(2, 2)] * 2))
    c.append(("Subtract", {}, [(2,)] * 2))
    c.append(("Subtract", {}, [(2, 2)] * 2))
    c.append(("Subtract", {}, [(2, 1, 2)] * 2))
    for ax, shs in ((-1, [(2,), (2,)]), (1, [(1,), (3,)]), (-1, [(2,), (1,), (3,)]), (1, [(1, 2), (2, 2)]), (2, [(2, 1), (2, 2)]), (-1, [(2, 1), (2, 2)]), (3, [(2, 2, 1), (2, 2, 2)]), (2, [(2, 1, 2), (2, 2, 2)]), (-2, [(1, 2), (2, 2)])):
        c.append(("Concatenate", {"axis": ax}, shs))
    for ax, shs in ((1, [(2,), (2,)]), (-1, [(3,), (3,)]), ([1, 1], [(2,), (2,)]), (-1, [(2, 2), (2, 2)]), (1, [(2, 2), (2, 2)]), ([1, 2], [(2, 2), (2, 2)]), ([2, 1], [(1, 2), (2, 3)])):
        c.append(("Dot", {"axes": ax}, shs))
    return c


def tasks(tier):
    out = []
    for m, a, shs in configs():
        for dom in absel.DOMS:
            if tier == "quick" and dom in ("linf", "l1") and len(shs) > 2:
                continue
            out.append({"id": "%s%s%s/%s" % (m, a or "", [list(s) for s in shs], dom), "m": m, "args": a, "shapes": [list(s) for s in shs], "dom": dom, "cost": 1})
    for m, a, shs in configs()[::5]:
        out.append({"id": "tf/%s%s%s" % (m, a or "", [list(s) for s in shs]), "m": m, "args": a, "shapes": [list(s) for s in shs], "dom": "box", "backend": "tensorflow", "cost": 1})
    return out


def run_task(task, res):
    from mc import layerchk as lc

    shapes = [tuple(s) for s in task["shapes"]]
    n = 0
    for s in shapes:
        k = 1
        for v in s:
            k *= v
        n += k
    el = absel.Elem(n, dom=task["dom"], patterns=(0, 1, 2, 3), placements=("raw", "l0", "u0", "mid"), cuts=("exact", "loose", "cut"))
    for mode in absel.MODES:
        for fast in (True, False):
            lc.forward(res, "%s/%s" % (mode, "fast" if fast else "precise"), "merge", dict(task["args"], m=task["m"]), shapes, el, mode, fast=fast)

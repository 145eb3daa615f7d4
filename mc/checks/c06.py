"""C06: max pooling (fast and precise) and the maximum along an axis."""
import itertools

from mc import absel

BOUNDS = (
    "every (pool, stride, padding, data format) of the grid x 3 modes x fast/precise x 4 kinds of domain; elements: 2-6 domains x "
    "4 affine patterns x 3 placements x 3 relations of the constant and affine bounds; values: all corner combinations (up to 8 "
    "inputs) or single-coordinate, alternating and extremal combinations"
)
ASSUMPTIONS = ["elements and values restricted to the stated lattices", "float32 slack 2e-5 + 1e-5*magnitude"]


def configs(tier):
    c = []
    for k, s, p, df in itertools.product(([2, 2], [1, 2], [2, 1], [3, 2], [1, 1]), (None, 1, [2, 1]), ("valid", "same"), ("channels_last", "channels_first")):
        for hw in ((2, 2), (3, 2), (3, 4)):
            if k[0] > hw[0] or k[1] > hw[1]:
                continue
            st = k if s is None else [s, s] if isinstance(s, int) else s
            if p == "same" and (st[0] > k[0] or st[1] > k[1]):
                continue  # keras itself disagrees between backends there
            if hw == (3, 4) and (s is not None or df == "channels_first"):
                continue
            ch = 2 if hw == (2, 2) else 1
            c.append(({"k": k, "s": s, "p": p, "df": df}, hw + (ch,) if df == "channels_last" else (ch,) + hw))
    return c


def tasks(tier):
    out = []
    for i, (a, sh) in enumerate(configs(tier)):
        out.append({"id": "%s%s" % (",".join("%s=%s" % (k, v) for k, v in a.items()), list(sh)), "args": a, "shape": list(sh), "doms": absel.DOMS if i % 4 == 0 or tier == "thorough" else ["box"], "cost": 1})
        if i % 8 == 0 and a["df"] == "channels_last":
            out.append({"id": "tf/%s%s" % (",".join("%s=%s" % (k, v) for k, v in a.items()), list(sh)), "args": a, "shape": list(sh), "doms": ["box"], "backend": "tensorflow", "cost": 1})
    return out


def run_task(task, res):
    from mc import layerchk as lc

    sh = tuple(task["shape"])
    n = sh[0] * sh[1] * sh[2]
    for dom in task["doms"]:
        el = absel.Elem(n, dom=dom, patterns=(0, 1, 2, 3), placements=("raw", "u0", "mid"), cuts=("exact", "loose", "cut"))
        for mode in absel.MODES:
            for fast in (True, False):
                lc.forward(res, "%s/%s/%s" % (dom, mode, "fast" if fast else "precise"), "maxpool", task["args"], [sh], el, mode, fast=fast)

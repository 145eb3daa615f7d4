"""C08: backward (CROWN) relaxation of the linear, normalising and reshaping layers."""
from mc import absel
from mc.checks import c05

BOUNDS = "same layer grid, elements, weights and values as C05, backward relaxation computed from the keras layer and from its decomon conversion, x 3 modes x 2-3 weight patterns"
ASSUMPTIONS = c05.ASSUMPTIONS


def tasks(tier):
    out = []
    for i, (op, a, sh) in enumerate(c05.configs(tier)):
        if a.get("p") == "same" and a.get("k") == [1, 2] and a.get("s") == 2:
            continue  # keras itself cannot extract the patches of these convolutions
        out.append({"id": c05.name(op, a, sh), "op": op, "args": a, "shape": list(sh), "doms": absel.DOMS if (tier == "thorough" or i % 4 == 0) else ["box"], "patterns": 2 if tier == "quick" else 6, "cost": 1})
        if i % 6 == 0 and a.get("df") != "channels_first":
            out.append({"id": "tf/" + c05.name(op, a, sh), "op": op, "args": a, "shape": list(sh), "doms": ["box"], "patterns": 1, "backend": "tensorflow", "cost": 1})
    return out


def run_task(task, res):
    from mc import layerchk as lc

    sh = tuple(task["shape"])
    n = 1
    for k in sh:
        n *= k
    for dom in task["doms"]:
        el = absel.Elem(n, dom=dom, patterns=(1, 3), placements=("raw",), cuts=("exact", "cut"))
        for mode in absel.MODES:
            if mode == "ibp" and dom != "box":
                continue
            for pat in range(task["patterns"]):
                for fd in (False, True):
                    lc.backward(res, "%s/%s/w%d/%s" % (dom, mode, pat, "decomon" if fd else "keras"), task["op"], task["args"], [sh], el, mode, pattern=pat, from_decomon=fd)

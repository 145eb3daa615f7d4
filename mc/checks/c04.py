"""C04: relaxations of the activation functions."""
import itertools

from mc import absel, nets

ACTS = ["relu", "sigmoid", "tanh", "softsign", "softplus", "exponential", "softmax", "linear"]
SHAPES = {"v3": (3,), "v1": (1,), "m22": (2, 2)}
BOUNDS = (
    "8 activations x 3 modes x 5 slopes x forward/backward relaxation x 4 kinds of domain; "
    "abstract elements: 2-6 input domains x 4 affine patterns x 6 placements of the pre-activation range (zero inside, at "
    "either end, entirely positive, entirely negative, centred) x 4 relations between constant and affine bounds x 3 "
    "magnitudes; concrete values: 9 levels (all corner combinations for softmax) per corner/midpoint of the domain"
)
ASSUMPTIONS = ["elements and values restricted to the stated lattices", "float32 slack 2e-5 + 1e-5*magnitude"]
PL = ("raw", "l0", "u0", "neg", "pos", "mid")
CU = ("exact", "loose", "cut", "cut2")


def tasks(tier):
    out = []
    for a in ACTS:
        for dom in absel.DOMS:
            out.append({"id": "%s/%s" % (a, dom), "act": a, "dom": dom, "shapes": ["v3"] if dom != "box" else list(SHAPES), "scales": [1.0, 0.125, 4.0] if dom in ("box", "l2") else [1.0], "patterns": 4 if tier == "quick" else 16, "cost": 3})
    for a in ACTS:
        out.append({"id": "tf/%s" % a, "act": a, "dom": "box", "shapes": ["v3"], "scales": [1.0], "patterns": 2, "backend": "tensorflow", "cost": 3})
    return out


def run_task(task, res):
    from mc import layerchk as lc

    a = task["act"]
    for sn in task["shapes"]:
        sh = SHAPES[sn]
        n = 1
        for k in sh:
            n *= k
        for sc in task["scales"]:
            if a in ("exponential", "softmax") and sc > 1:
                sc = 2.0
            el = absel.Elem(n, dom=task["dom"], patterns=tuple(range(task["patterns"])), placements=PL, cuts=CU, scale=sc)
            how = "product" if a == "softmax" else "elem"
            forms = [("act", {"f": a})]
            for op, args in forms:
                for mode in absel.MODES:
                    for slope in nets.SLOPES:
                        key = "%s/%s/s%g/%s/%s" % (sn, op, sc, mode, slope)
                        if not (a == "softplus" and slope == "adaptative-slope"):
                            lc.forward(res, "fwd/" + key, op, args, [sh], el, mode, how, slope=slope)
                        if (mode == "hybrid" or task["dom"] == "box") and a not in ("exponential", "softmax"):
                            if not (a == "softplus" and slope == "adaptative-slope"):
                                lc.backward(res, "bwd/" + key, op, args, [sh], el, mode, how, slope=slope)
                        if a not in ("relu", "softplus", "exponential"):
                            break

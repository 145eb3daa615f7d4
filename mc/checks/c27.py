"""C27: elementwise arithmetic on bounds."""
import itertools

from mc import absel

BOUNDS = (
    "28 operations of decomon.layers.utils and decomon.utils (every axis they accept on operands of rank 1 and 2, 4 slopes for those "
    "that take one, explicit and default arguments) x 3 modes x 4 kinds of domain; elements: 2-6 domains x 4 affine patterns x up to 6 placements around zero x 3 "
    "relations of the constant and affine bounds x 2 magnitudes; values: all corner combinations (both operands included) or 9 "
    "levels for elementwise functions"
)
ASSUMPTIONS = ["elements and values restricted to the stated lattices", "float32 slack 2e-5 + 1e-5*magnitude", "logarithm and inverse: operands strictly positive"]
ORACLE = "the operation in float64 (numpy) on every compatible concrete value; output shapes compared too."

ANY = ("raw", "l0", "u0", "neg", "pos", "mid")
E3 = ("exact", "loose", "cut")


def spec(np):
    """name -> (function(lists, mode, dom), exact(list of arrays with leading axes B,P,C), shapes, how, placements, cuts)"""
    from decomon import utils as du
    from decomon.layers import utils as lu

    s = {}

    def un(name, f, ex, shapes=((3,),), how="levels", pl=ANY, cuts=E3, **kw):
        for sh in shapes:
            s["%s%s" % (name, list(sh))] = (lambda ls, m, d: f(ls[0], mode=m, perturbation_domain=d, **kw), lambda a: ex(a[0]), [sh], how, pl, cuts)

    def bi(name, f, ex, shapes=(((2,), (2,)), ((1, 2), (1, 2)))):
        for sh in shapes:
            s["%s%s" % (name, [list(x) for x in sh])] = (lambda ls, m, d: f(ls[0], ls[1], mode=m, perturbation_domain=d), lambda a: ex(*a), list(sh), "product", ("raw", "l0", "u0", "mid"), E3)

    def opts(m, d, **kw):
        """the arguments which differ from their default values"""
        if m != "hybrid":
            kw["mode"] = m
        if type(d).__name__ != "BoxDomain":
            kw["perturbation_domain"] = d
        return kw

    for n_, f, e in (("sum", lu.sum, np.sum), ("max", lu.max_, np.max), ("min", lu.min_, np.min), ("sort", lu.sort, np.sort), ("split", lu.split, lambda a, A: np.split(a, a.shape[A], A)), ("expand_dims", lu.expand_dims, np.expand_dims)):
        s["%s/default[2, 3]" % n_] = (lambda ls, m, d, f=f: f(ls[0], **opts(m, d)), lambda a, e=e: e(a[0], -1), [(2, 3)], "product", ("raw", "l0", "u0", "mid"), E3)
    for n_, f, e in (("relu", du.relu_, lambda a: np.maximum(a, 0)), ("softplus", lu.softplus_, lambda a: np.logaddexp(a, 0)), ("minus", du.minus, lambda a: -a), ("pow", lu.pow, lambda a: a * a), ("abs", lu.abs, np.abs), ("exp", lu.exp, np.exp)):
        s["%s/default[3]" % n_] = (lambda ls, m, d, f=f: f(ls[0], **opts(m, d)), lambda a, e=e: e(a[0]), [(3,)], "levels", ANY, E3)
    for n_, f, e in (("add", du.add, np.add), ("subtract", du.subtract, np.subtract), ("maximum", du.maximum, np.maximum), ("minimum", du.minimum, np.minimum), ("multiply", lu.multiply, np.multiply)):
        s["%s/default[[2], [2]]" % n_] = (lambda ls, m, d, f=f: f(ls[0], ls[1], **opts(m, d)), lambda a, e=e: e(*a), [(2,), (2,)], "product", ("raw", "l0", "u0", "mid"), E3)

    R = ((3,), (2, 2))
    bi("add", du.add, lambda a, b: a + b)
    bi("subtract", du.subtract, lambda a, b: a - b)
    bi("maximum", du.maximum, np.maximum)
    bi("minimum", du.minimum, np.minimum)
    bi("multiply", lu.multiply, lambda a, b: a * b)
    un("minus", du.minus, lambda a: -a, R)
    for sl in ("volume-slope", "same-slope", "zero-lb", "one-lb"):
        un("relu/%s" % sl, du.relu_, lambda a: np.maximum(a, 0), R, slope=sl)
    un("softplus", lu.softplus_, lambda a: np.logaddexp(a, 0), R)
    un("pow", lu.pow, lambda a: a * a, R)
    un("abs", lu.abs, np.abs, R)
    un("exp", lu.exp, np.exp, R)
    un("log", lu.log, lambda a: np.log(np.maximum(a, 1e-9)), R, pl=("pos", "tiny"), cuts=("exact", "cut"))
    un("frac_pos", lu.frac_pos, lambda a: 1 / np.maximum(a, 1e-9), R, pl=("pos", "tiny"), cuts=("exact", "cut"))
    for ax, sh in ((-1, (3,)), (1, (3,)), (-1, (2, 3)), (1, (2, 3)), (2, (2, 3)), (-2, (2, 3))):
        k = dict(how="product", pl=("raw", "l0", "u0", "mid"), shapes=(sh,))
        A = ax + 2 if ax >= 0 else ax
        un("sum/%d" % ax, lu.sum, lambda a, A=A: a.sum(A), axis=ax, **k)
        un("max/%d" % ax, lu.max_, lambda a, A=A: a.max(A), axis=ax, **k)
        un("min/%d" % ax, lu.min_, lambda a, A=A: a.min(A), axis=ax, **k)
        un("sort/%d" % ax, lu.sort, lambda a, A=A: np.sort(a, A), axis=ax, **k)
        un("split/%d" % ax, lu.split, lambda a, A=A: np.split(a, a.shape[A], A), axis=ax, **k)
        un("expand_dims/%d" % ax, lu.expand_dims, lambda a, A=A: np.expand_dims(a, A), axis=ax, **k)
        for n in (1, 2):
            un("broadcast%d/%d" % (n, ax), lu.broadcast, lambda a, A=A, n=n: np.expand_dims(a, (A,)) if n == 1 else np.expand_dims(np.expand_dims(a, A), A), n=n, axis=ax, **k)
    for n_, f, e in (("sort", lu.sort, np.sort), ("max", lu.max_, np.max), ("min", lu.min_, np.min)):
        un("%s/-1" % n_, f, lambda a, e=e: e(a, -1), ((5,),), "product", ("raw", "l0", "mid"), axis=-1)
    for ax, pm in itertools.product((1, 2, -1), (1, 2)):
        un("permute/%d-%d" % (ax, pm), lu.permute_dimensions, lambda a, ax=ax, pm=pm: np.moveaxis(a, (ax % 3) + 2, pm + 2), ((2, 3),), "product", ("raw", "mid"), axis=ax, axis_perm=pm)
    return s


NAMES = None


def names():
    """names of the operations without importing decomon (the check lists its tasks outside the workers)"""
    out = []
    for n in ("add", "subtract", "maximum", "minimum", "multiply"):
        out += ["%s[[2], [2]]" % n, "%s[[1, 2], [1, 2]]" % n]
    for n in ["minus", "softplus", "pow", "abs", "exp", "log", "frac_pos"] + ["relu/%s" % s for s in ("volume-slope", "same-slope", "zero-lb", "one-lb")]:
        out += ["%s[3]" % n, "%s[2, 2]" % n]
    for ax, sh in ((-1, "[3]"), (1, "[3]"), (-1, "[2, 3]"), (1, "[2, 3]"), (2, "[2, 3]"), (-2, "[2, 3]")):
        out += ["%s/%d%s" % (n, ax, sh) for n in ("sum", "max", "min", "sort", "split", "expand_dims", "broadcast1", "broadcast2")]
    out += ["%s/default[2, 3]" % n for n in ("sum", "max", "min", "sort", "split", "expand_dims")]
    out += ["%s/default[3]" % n for n in ("relu", "softplus", "minus", "pow", "abs", "exp")]
    out += ["%s/default[[2], [2]]" % n for n in ("add", "subtract", "maximum", "minimum", "multiply")]
    out += ["sort/-1[5]", "max/-1[5]", "min/-1[5]"]
    out += ["permute/%d-%d[2, 3]" % (a, p) for a, p in itertools.product((1, 2, -1), (1, 2))]
    return out


def tasks(tier):
    out = []
    for i, n in enumerate(names()):
        out.append({"id": n, "op": n, "doms": absel.DOMS, "tier": tier, "cost": 1})
        if i % 4 == 0:
            out.append({"id": "tf/" + n, "op": n, "doms": ["box"], "tier": tier, "backend": "tensorflow", "cost": 1})
    return out


def run_task(task, res):
    import numpy as np

    sp = spec(np)
    assert sorted(sp) == sorted(names()), sorted(set(sp) ^ set(names()))
    f, ex, shapes, how, pl, cuts = sp[task["op"]]
    n = sum(int(np.prod(s)) for s in shapes)
    pats = (0, 1, 2, 3) if task["tier"] == "quick" else tuple(range(12))
    for dom in task["doms"]:
        for scale in (1.0, 0.125) if how == "levels" else (1.0,):
            el = absel.Elem(n, dom=dom, patterns=pats, placements=pl, cuts=cuts, scale=scale)
            d = absel.make_domain(dom)
            for mode in absel.MODES:
                t = absel.tensors(el.inputs(mode, shapes))
                k = len(t) // len(shapes)
                out = f([t[i * k : (i + 1) * k] for i in range(len(shapes))], mode, d)
                Y, ok = el.values(mode, how)
                args, i = [], 0
                for s in shapes:
                    m = int(np.prod(s))
                    args.append(Y[..., i : i + m].reshape(Y.shape[:-1] + tuple(s)))
                    i += m
                with np.errstate(all="ignore"):
                    F = ex(args)
                parts = [(out, F)] if not isinstance(F, list) else list(zip(out, F))
                if isinstance(F, list) and len(out) != len(F):
                    res.violation("%s/%s:parts" % (dom, mode), "%d parts, expected %d" % (len(out), len(F)))
                for q, (o, Fq) in enumerate(parts):
                    key = "%s/%s/x%g/%d" % (dom, mode, scale, q)
                    # shapes: constant and affine bounds have the shape of the operation's result
                    osh = tuple(Fq.shape[3:])
                    got = [tuple(v.shape[1:]) for v in o]
                    want = {"ibp": [osh] * 2, "affine": [None, (el.d,) + osh, osh, (el.d,) + osh, osh], "hybrid": [None, osh, (el.d,) + osh, osh, osh, (el.d,) + osh, osh]}[mode]
                    if len(got) != len(want) or any(w is not None and g != w for g, w in zip(got, want)):
                        res.violation(key + ":output-shape", "outputs of shapes %s, expected %s" % (got, want))
                        continue
                    absel.check_forward(res, key, o, mode, el, Y, ok, Fq)

"""C01: the bounds of a converted network contain every value it takes on the box."""
import itertools

from mc import nets

VALS = [-1.5, -0.5, 0.0, 1.0]
BOUNDS = (
    "programs = all words of length 1 over a 36-macro layer alphabet x 7 methods x 5 slopes, all words of length 2 over a "
    "core alphabet x 7 methods (thorough: all words of length 2 over the full alphabet, length 3 over the core one); 2 weight "
    "patterns each; every graph of 1, 2 or 3 operations (thorough: 4) among dense, relu, a dense used again and Add, Subtract, Multiply, Maximum of any two tensors (or one with itself; up to 2 operations: of any three tensors) x all forward methods; the words of length 1 again with 1 and 3 inputs/outputs; 6 networks with several outputs x 7 methods x final modes; 5 forms of final softmax x 7 methods (bounds of the logits); all 100 boxes with corners on the lattice {-1.5,-.5,0,1}^2 (degenerate ones included) x all lattice points "
    "of the 3x refined grid inside each box"
)
ASSUMPTIONS = ["inputs, weights and domains are restricted to the stated lattices", "float32 slack 2e-5 + 1e-5*magnitude", "torch backend for the sweep, tensorflow for a sub-alphabet"]
CORE = ["dense", "dense_relu", "relu", "dense_tanh", "sigmoid", "nested", "bn", "res_add", "res_max", "res_concat", "dense3d", "conv_same"]


# networks with several outputs: [program, indices of the output nodes]
_B = [["in", {"dim": 3}, []], ["dense", {"u": 2}, [0]], ["act", {"f": "relu"}, [1]], ["dense", {"u": 4}, [2]], ["act", {"f": "sigmoid"}, [3]], ["dense", {"u": 1, "act": "relu"}, [1]], ["flatten", {}, [2]]]
MULTI = {
    "deep-first": [_B, [4, 1]],
    "deep-last": [_B, [1, 3, 5]],
    "same-depth": [_B, [5, 2]],
    "branches": [_B, [5, 4, 6]],
    "shared": [[["in", {"dim": 2}, []], ["dense", {"u": 2}, [0]], ["act", {"f": "relu"}, [1]], ["again", {"of": 1}, [2]], ["act", {"f": "tanh"}, [3]]], [1, 3, 4]],
    "nested": [[["in", {"dim": 2}, []], ["sub", {"prog": nets.chain(2, ("dense", {"u": 3, "act": "relu"}), ("dense", {"u": 2}))}, [0]], ["dense", {"u": 1}, [1]]], [2, 1]],
}


def explore_multi(task, res):
    from mc import common, e2e

    prog, outs = MULTI[task["multi"]]
    dim = prog[0][1]["dim"]
    vals = [-1.0, 0.0, 1.0]
    bx = common.boxes(vals, dim)
    X = common.points(common.refine(vals, 2), dim)
    mask = common.inside(bx, X)
    for fi, fa in ((None, None), (True, True), (True, False), (False, True)):
        for k in (0, 1):
            model = nets.build(prog, outputs=outs)
            model.set_weights(nets.pattern_weights(model, k))
            F = [f.reshape(len(X), -1) for f in nets.predict(model, X)]
            kw = {} if fi is None else {"final_ibp": fi, "final_affine": fa}
            d = e2e.convert(model, task["method"], **kw)
            out = d.predict_on_single_batch_np(bx)
            n = {(True, True): 7, (False, True): 5, (True, False): 2}[(d.ibp, d.affine)]
            key = "%s-%s/w%d" % (fi, fa, k)
            if len(out) != n * len(outs):
                res.violation(key + ":outputs", "%d tensors returned for the bounds of %d outputs, %d expected" % (len(out), len(outs), n * len(outs)))
                continue
            for i in range(len(outs)):
                part = out[n * i : n * (i + 1)]
                if d.affine and part[0].shape != bx.shape or not d.affine and part[0].shape[1:] != F[i].shape[1:]:
                    res.violation(key + ":shape", "first tensor of output %d has shape %s" % (i, part[0].shape))
                    continue
                r = common.unpack(part, d.ibp, d.affine)
                common.check_sound(res, "%s/output%d" % (key, i), r, mask, X, F[i], common.box_repr(bx))
                for m in r:
                    res.outcome(r[m])
            res.states += len(bx)
            res.transitions += int(mask.sum()) * len(outs)
            res.traces += 1
    res.sample({"program": prog, "outputs": outs, "method": task["method"]})


# networks ending with a softmax, whose bounds are those of the logits: (program, program of the logits)
_H = [["in", {"dim": 2}, []], ["dense", {"u": 3, "act": "relu"}, [0]]]
_L = _H + [["dense", {"u": 2}, [1]]]
_I = nets.chain(2, ("dense", {"u": 3, "act": "relu"}), ("dense", {"u": 2, "act": "softmax"}))
SOFTMAX = {
    "embedded": (_H + [["dense", {"u": 2, "act": "softmax"}, [1]]], _L),
    "activation": (_L + [["act", {"f": "softmax"}, [2]]], _L),
    "layer": (_L + [["softmax_layer", {}, [2]]], _L),
    "nested": ([["in", {"dim": 2}, []], ["sub", {"prog": _I}, [0]]], _L),
    "nested_seq": ([["in", {"dim": 2}, []], ["sub", {"prog": _I, "seq": True}, [0]]], _L),
}


def explore_softmax(task, res):
    from mc import common, e2e

    prog, ref = SOFTMAX[task["softmax"]]
    bx = common.boxes(VALS, 2)
    X = common.points(common.refine(VALS, 3), 2)
    mask = common.inside(bx, X)
    for method in task["methods"]:
        for k in (0, 1):
            for seq in (False, True) if task["softmax"] in ("embedded", "activation", "layer") else (False,):
                model, logits = nets.build(prog, seq=seq), nets.build(ref)
                model.set_weights(nets.pattern_weights(model, k))
                logits.set_weights(model.get_weights())
                d = e2e.convert(model, method, final_ibp=True, final_affine=True)
                r = common.unpack(d.predict_on_single_batch_np(bx), d.ibp, d.affine)
                common.check_sound(res, "%s/w%d/%s" % (method, k, "seq" if seq else "fun"), r, mask, X, nets.predict(logits, X), common.box_repr(bx))
                res.states += len(bx)
                res.transitions += int(mask.sum())
                res.traces += 1
                res.outcome(r["u"])
    res.sample({"program": prog, "logits": ref})


DAG_BINARY = ["Add", "Subtract", "Multiply", "Maximum"]


def dags(n):
    """every graph of n operations (dense, relu, a dense used again, 4 merges of any 2 tensors or of one with itself), all used"""

    def rec(prog):
        i = len(prog)
        if i == n + 1:
            if {p for _, _, ins in prog[1:] for p in ins} >= set(range(1, n)):
                yield list(prog)
            return
        for a in range(i):
            yield from rec(prog + [["dense", {"u": 2}, [a]]])
            yield from rec(prog + [["act", {"f": "relu"}, [a]]])
            for d in range(1, i):
                if prog[d][0] == "dense":
                    yield from rec(prog + [["again", {"of": d}, [a]]])
            for b in range(i):
                for m in DAG_BINARY:
                    if a <= b or m == "Subtract":
                        yield from rec(prog + [["merge", {"m": m}, [a, b]]])
                for c in range(i) if n < 3 else ():
                    for m in ("Add", "Average", "Maximum"):
                        yield from rec(prog + [["merge", {"m": m}, [a, b, c]]])

    yield from rec([["in", {"dim": 2}, []]])


def explore_dags(task, res):
    from mc import common, e2e

    vals = [-1.0, 0.25, 1.0]
    bx, X = common.boxes(vals, 2), common.points(common.refine(vals, 2), 2)
    mask = common.inside(bx, X)
    for i, prog in enumerate(dags(task["size"])):
        if i % task["parts"] == task["part"]:
            for m in task["methods"]:
                name = ",".join("%s%s" % (n[1].get("m") or (n[0] if n[0] != "again" else "again%d" % n[1]["of"]), "".join(map(str, n[2]))) for n in prog[1:])
                e2e.explore_box(res, "%s/%s" % (name, m), prog, m, bx, X, mask, patterns=(i % 2,))


def tasks(tier):
    out = []
    for n, parts in ((1, 1), (2, 2), (3, 24)) + (((4, 256),) if tier == "thorough" else ()):
        for j in range(parts):
            ms = [m for m in nets.METHODS if nets.is_forward(m)]
            out.append({"id": "graphs/%d/%d" % (n, j), "size": n, "part": j, "parts": parts, "methods": ms, "cost": 4})
    for m in nets.MACROS:
        for method in nets.METHODS:
            if nets.supported((m,), method):
                out.append({"id": "%s/%s" % (m, method), "word": [m], "method": method, "slopes": [s for s in nets.SLOPES if nets.supported((m,), method, s)], "cost": 4})
    l2 = nets.MACROS if tier == "thorough" else CORE
    for w in itertools.product(l2, repeat=2):
        ms = [m for m in nets.METHODS if nets.supported(w, m)]
        out.append({"id": "+".join(w), "word": list(w), "methods": ms, "cost": 2})
    if tier == "thorough":
        for w in itertools.product(["dense_relu", "sigmoid", "res_add", "res_max", "nested", "bn", "dense3d"], repeat=3):
            out.append({"id": "+".join(w), "word": list(w), "methods": [m for m in nets.METHODS if nets.supported(w, m)], "cost": 3})
    for dim, o in ((1, 1), (1, 3), (3, 1), (3, 3)):
        for m in nets.MACROS:
            out.append({"id": "dim%d-%d/%s" % (dim, o, m), "word": [m], "dim": dim, "out": o, "methods": [x for x in nets.METHODS if nets.supported((m,), x)], "cost": 2})
    for name in MULTI:
        for method in nets.METHODS:
            if name == "shared" and not nets.is_forward(method):
                continue  # refused
            out.append({"id": "multi/%s/%s" % (name, method), "multi": name, "method": method, "cost": 2})
    for form in SOFTMAX:
        out.append({"id": "softmax/%s" % form, "softmax": form, "methods": nets.METHODS, "cost": 2})
    for w in (("dense_relu", "dense_tanh"), ("conv_same",), ("res_max",), ("maxpool",)):
        for method in ("crown", "crown-forward-hybrid", "forward-ibp", "forward-hybrid"):
            if nets.supported(w, method) and (tier == "thorough" or method != "forward-ibp"):
                out.append({"id": "tf/%s/%s" % ("+".join(w), method), "word": list(w), "methods": [method], "backend": "tensorflow", "cost": 8})
    return out


def run_task(task, res):
    from mc import common, e2e

    if "size" in task:
        return explore_dags(task, res)
    if "multi" in task:
        return explore_multi(task, res)
    if "softmax" in task:
        return explore_softmax(task, res)
    dim = task.get("dim", 2)
    prog = nets.word_program(task["word"], dim=dim, out=task.get("out", 2))
    vals = VALS if task.get("backend") != "tensorflow" and dim < 3 else [-1.0, 0.0, 1.0]
    bx = common.boxes(vals, dim)
    X = common.points(common.refine(vals, 3 if dim < 3 else 2), dim)
    mask = common.inside(bx, X)
    if "method" in task:
        for s in task["slopes"]:
            # the default outputs of the method, then both kinds of bounds
            e2e.explore_box(res, "%s" % s, prog, task["method"], bx, X, mask, slope=s, final_ibp=True, final_affine=True)
        e2e.explore_box(res, "default-outputs", prog, task["method"], bx, X, mask, patterns=(2,))
    else:
        for method in task["methods"]:
            e2e.explore_box(res, method, prog, method, bx, X, mask, final_ibp=True, final_affine=True)

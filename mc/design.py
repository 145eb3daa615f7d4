"""DESIGN.md = DESIGN.tmpl.md + one section per property + table of the planted bugs."""
import glob
import importlib
import json
import os

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)

ORACLE = {
    "C01": "the original network evaluated by keras at every lattice point of every box. The thorough tier goes to words of length 3.",
    "C02": "the original network evaluated by keras at every lattice point of every ball (vertices of the l1 ball, corners of the linf ball, points of the l2 sphere).",
    "C03": "float64 reference: vertex enumeration for boxes, dual norm for balls. Equality, not only soundness.",
    "C04": "the activation itself at every compatible concrete pair (x, y) of the abstract element.",
    "C05": "the keras layer evaluated on every concrete value; output shapes compared too.",
    "C06": "the keras pooling layer on every concrete value.",
    "C07": "the keras merge layer on every combination of corner values of the operands.",
    "C08": "the keras layer; the backward relaxation must bracket it at every concrete value.",
    "C10": "every lattice point of the box: a certificate (score < 0) with a counterexample point is a violation; so is a claimed adversarial example when no target class reaches the source.",
    "C11": "every lattice point of the ball, evaluated with keras.",
    "C12": "the same function called on the sample alone.",
    "C13": "membership of all cell centres and corners of the refined lattice; the network at all points for the aggregated results. The random choice of the split dimension is enumerated (np.random replaced by a controlled chooser: all schedules of choices are explored).",
    "C14": "snapshots (weights, config, names, predictions) of the original network and the bounds of every earlier conversion, compared after every operation.",
    "C16": "after each domain change, lattice points of the current domain; the reference state machine predicts which changes must be refused.",
    "C26": "differential: preprocessed network against the original at all lattice points, before and after weight updates, plus structural invariants (no nested model, no embedded activation, same variables).",
}


def seeds():
    rows = ["| id | property | needs | caught by |", "|---|---|---|---|"]
    caught = {}
    p = os.path.join(HERE, "caught.json")
    if os.path.exists(p):
        caught = json.load(open(p))
    for f in sorted(glob.glob(os.path.join(VERIF, "seeded", "*", "meta.json"))):
        m = json.load(open(f))
        i = os.path.basename(os.path.dirname(f))
        rows.append("| %s | %s | %s | %s |" % (i, m["property"], m["needs"].replace("|", "/"), caught.get(i, "?")))
    return "\n".join(rows)


def props(PROPS, NA):
    out = ["## Properties"]
    for p in PROPS:
        out.append("\n### %s - %s" % (p["id"], p["title"]))
        if not os.path.exists(os.path.join(HERE, "checks", p["id"].lower() + ".py")):
            out.append("Not claimed: " + NA.get(p["id"], "check not built yet") + ".")
            continue
        m = importlib.import_module("mc.checks." + p["id"].lower())
        ev = os.path.join(HERE, "cost.json")
        out.append("*Decided by* %s.\n" % p["technique"])
        out.append("- Bounds: %s." % m.BOUNDS.rstrip("."))
        out.append("- Oracle: %s" % (ORACLE.get(p["id"]) or getattr(m, "ORACLE", "see the technique.")))
        out.append("- Why beyond the tests: %s" % p["why"])
        if os.path.exists(ev):
            c = json.load(open(ev)).get(p["id"])
            if c:
                out.append("- Cost (quick tier): %s" % c)
    return "\n".join(out)


def write(PROPS, NA):
    s = open(os.path.join(HERE, "DESIGN.tmpl.md")).read()
    s = s.replace("@@PROPS@@", props(PROPS, NA)).replace("@@SEEDS@@", seeds())
    open(os.path.join(VERIF, "DESIGN.md"), "w").write(s)

"""Strategies and set-up shared by the solver properties (C09-C13, C22)."""
from . import gen, models as M, steps
from .gen import st

from jaxfg import core


def scaled(draw, g):
    """Multiply all residuals by one number, so that costs are small or large."""
    repeated = any(len(set(f["v"])) < len(f["v"]) for f in g["fs"])
    w = draw(st.sampled_from([None, None, None, 32.0] + ([] if repeated else [0.03125, 0.0009765625])))
    if w:
        for t in g["tpl"]:
            t["w"] = t.get("w", 1.0) * w
        if w < 1 and g["lin"] == "chol":  # the regulariser would hide the small residuals
            g["lin"] = draw(st.sampled_from(["cg", "icg"]))
    return g


@st.composite
def hard_problems(draw, tier):
    """Graphs on which full steps overshoot: strongly nonlinear factors, weak anchors."""
    g = draw(gen.graphs(
        kinds=draw(st.sampled_from([["r1"], ["r2"], ["r1", "r2"], ["sc", "pt"], ["r3", "so2"], ["se2"], ["so3"], ["ps", "r1"]])),
        types=["nl", "nl", "nl", "nt"], noises=("d", "f"), max_kinds=2, max_vars=4 if tier != "quick" else 3,
        max_tpl=2, min_tpl=1, max_factors=5, max_arity=2, anchors=True, styles=("n", "n", "n", "o"),
    ))
    for t in g["tpl"]:
        if t["t"] == "nl":
            t["s"] = draw(st.sampled_from([6, 6, 4, 7, 5]))
        if t["t"] in ("lin", "pri"):
            t["w"] = draw(st.sampled_from([0.25, 0.125]))
    g["x0"] = [draw(gen.SEEDS), draw(st.sampled_from("nnno"))]
    g["order"] = draw(gen.SEEDS)
    g["lin"] = draw(st.sampled_from(["chol", "icg", "chol", "cg"]))
    if g["lin"] == "cg" and any(len(set(f["v"])) < len(f["v"]) for f in g["fs"]):
        g["lin"] = "chol"
    return scaled(draw, g)


@st.composite
def problems(draw, tier, noises=("d", "f"), kinds=None, types=None, styles=("n", "n", "b", "o")):
    big = tier != "quick"
    kinds = kinds or M.ALL_KINDS
    types = types or ["lin", "nl", "nl", "nl", "nl", "nt", "an", "pd", "pri", "bet", "bet"]
    g = draw(gen.graphs(
        kinds=kinds, types=types, noises=noises, max_kinds=2, max_vars=6 if big else 4, max_tpl=3, min_tpl=1,
        max_factors=10 if big else 6, max_arity=2, anchors=True, styles=("n", "n", "n", "o"), grow=12, many=(6, 16),
    ))
    g["x0"] = [draw(gen.SEEDS), draw(st.sampled_from(styles))]
    g["order"] = draw(gen.SEEDS)
    g["lin"] = draw(st.sampled_from(["chol", "icg", "chol", "cg"]))
    if g["lin"] == "cg" and any(len(set(f["v"])) < len(f["v"]) for f in g["fs"]):
        g["lin"] = "chol"  # see the known finding on CG damping with repeated coordinates
    return scaled(draw, g)


def setup(case, fresh=False):
    b = M.build(case, fresh)
    used = M.used_vars(case)
    graph = core.StackedFactorGraph.make(b.factors)
    prob = steps.Problem(case, b, graph, used)
    start = M.flats_for(case, *case["x0"])
    order = M.permutation(case["order"], len(b.vars))
    return prob, start, order


def labels(case, info, recs):
    gen.graph_labels(case, info)
    info.label("linear solver " + case["lin"])
    for r in recs:
        if "stop" in r:
            info.label("walk ended: " + r["stop"])
        else:
            info.inner += 1
            info.label("step " + r["case"])
            info.label("accepted" if r["accepted"] else "rejected")

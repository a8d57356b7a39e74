"""C01: residual vector and cost of a graph against factor-by-factor numpy evaluation."""
import numpy as np

from .. import gen, huge, models as M
from ..cmp import RTOL, close
from ..env import X64, require
from ..gen import st

from jaxfg import core

N_QUICK = 110
BUDGET_QUICK = 45
N_THOROUGH = 3000
TOL = 1e-8 if X64 else RTOL
RULE = (
    "at least two factors in one group or two groups (stacking or concatenation happens), and the "
    "reference residual has at least two different nonzero entries"
)


@st.composite
def _cases(draw, tier):
    big = tier != "quick"
    if draw(st.integers(0, 99)) == 57:
        return dict(huge=draw(huge.SIZES), s=draw(gen.SEEDS))
    g = draw(gen.graphs(max_factors=24 if big else 10, max_vars=10 if big else 6, max_tpl=6 if big else 4, grow=8))
    g["x"] = [[draw(gen.SEEDS), draw(st.sampled_from("nnnzb"))] for _ in range(2)]
    g["order"] = draw(gen.SEEDS)
    g["onp"] = draw(st.booleans())
    g["perm"] = draw(gen.SEEDS)
    g["same"] = draw(st.integers(0, 4)) == 1
    return g


def strategy(tier):
    return _cases(tier)


def check_huge(case, info):
    graph, a, want, _, _, _ = huge.make(case["huge"], case["s"])
    require(graph.residual_dim == len(want), "residual_dim %s, expected %s", graph.residual_dim, len(want))
    cost, r = graph.compute_cost(a)
    scale = max(1.0, float(np.max(np.abs(want))))
    close("whitened residual entries (sorted)", np.sort(np.asarray(r, float)), np.sort(want), rtol=TOL, scale=scale)
    close("cost", cost, float(want @ want), rtol=TOL)
    info.label("tens of thousands of residuals")
    info.inner += 1
    info.nontrivial = True


def check(case, info):
    if case.get("huge"):
        return check_huge(case, info)
    b = M.build(case)
    if case.get("same"):  # the same factor object twice
        i = case["order"] % len(b.factors)
        b = b._replace(factors=b.factors + [b.factors[i]], refs=b.refs + [b.refs[i]])
        info.label("one factor object given twice")
    used = M.used_vars(case)
    perm = M.permutation(case["perm"], len(b.factors))
    factors = [b.factors[i] for i in perm]
    graph = core.StackedFactorGraph.make(factors, use_onp=case["onp"])
    order = M.permutation(case["order"], len(b.vars))
    lab = gen.graph_labels(case, info)
    info.label("numpy stacking" if case["onp"] else "jax stacking")
    total = sum(r.rdim for r in b.refs)
    require(graph.residual_dim == total, "residual_dim %s, expected %s", graph.residual_dim, total)
    for seed, style in case["x"]:
        flats = M.flats_for(case, seed, style)
        if not M.residual_angle_ok(b.refs, flats):
            info.label("skipped: rotation near pi")
            continue
        info.inner += 1
        a = M.assignments_for(b, flats, order, used)
        parts = [r.whitened([flats[i] for i in r.v]) for r in b.refs]
        want = np.sort(np.concatenate(parts))
        scale = max(1.0, float(np.max(np.abs(want))), float(max(np.max(np.abs(f)) for f in flats)) * 4)
        got = np.asarray(graph.compute_whitened_residual_vector(a))
        require(got.shape == (total,), "residual vector shape %s, expected %s", got.shape, (total,))
        close("whitened residual entries (sorted)", np.sort(got.astype(float)), want, rtol=TOL, scale=scale)
        cost, res2 = graph.compute_cost(a)
        close("residual returned by compute_cost", res2, got, rtol=TOL, scale=scale)
        c = float(want @ want)
        require(np.shape(cost) == (), "cost has shape %s", np.shape(cost))
        close("cost", cost, c, rtol=TOL, scale=max(1.0, c, scale * scale * 0.1))
        # Each factor on its own, through the library's single-factor path.
        f = b.factors[0]
        vals = f.get_variable_values_from_assignments(a)
        raw = np.asarray(f.compute_residual_vector(vals))
        close("residual of one factor", raw, b.refs[0].raw([flats[i] for i in b.refs[0].v]), rtol=TOL, scale=scale)
        if (lab["stacked"] or lab["groups"] > 1) and len(set(np.round(want[want != 0], 9))) > 1:
            info.nontrivial = True

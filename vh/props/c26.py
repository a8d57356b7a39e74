"""C26: graphs, factors, noise models and assignments are pytrees of their parameters."""
import jax
import jax_dataclasses as jdc
import numpy as np
from jax import numpy as jnp

from .. import gen, models as M
from ..cmp import close
from ..env import X64, require
from ..gen import SEEDS, st

from jaxfg import core, utils

N_QUICK = 90
BUDGET_QUICK = 45
N_THOROUGH = 2500
TOL = 1e-8 if X64 else 3e-3
RULE = "changed parameters of a graph in which several factors share a group, with a residual that the change moves"
tree = jax.tree_util


@st.composite
def _cases(draw, tier):
    big = tier != "quick"
    g = draw(gen.graphs(max_factors=16 if big else 9, max_vars=8 if big else 5, max_tpl=5 if big else 4, grow=8, many=(15, 50)))
    g["x"] = [draw(SEEDS), draw(st.sampled_from("nnnob"))]
    g["order"] = draw(SEEDS)
    g["h"] = draw(st.sampled_from([1.25, 0.5, 2.0]))
    g["pick"] = draw(SEEDS)
    g["axis"] = draw(st.sampled_from([0, 0, 1, -1]))
    return g


def strategy(tier):
    return _cases(tier)


def residuals(graph, a):
    cost, r = graph.compute_cost(a)
    return float(cost), np.sort(np.asarray(r, float))


def snapshot(x):
    return [np.array(v) for v in tree.tree_leaves(x)], tree.tree_structure(x)


def same_snapshot(name, x, snap):
    leaves, struct = snap
    now = tree.tree_leaves(x)
    require(tree.tree_structure(x) == struct, "%s: structure changed", name)
    for u, v in zip(now, leaves):
        require(np.array_equal(np.asarray(u), v, equal_nan=True), "%s: a parameter changed in place", name)


def check(case, info):
    b = M.build(case)
    used = M.used_vars(case)
    order = M.permutation(case["order"], len(b.vars))
    flats = M.flats_for(case, *case["x"])
    if not M.residual_angle_ok(b.refs, flats):
        info.label("skipped: rotation near pi")
        return
    graph = core.StackedFactorGraph.make(b.factors)
    a = M.assignments_for(b, flats, order, used)
    lab = gen.graph_labels(case, info)
    cost, r = residuals(graph, a)
    scale = max(1.0, float(np.max(np.abs(r))) if len(r) else 1.0) * 4
    snaps = [snapshot(graph), snapshot(a)] + [snapshot(f) for f in b.factors]

    # Taking objects apart and putting them together changes nothing.
    for name, x in [("graph", graph), ("assignments", a)]:
        leaves, struct = tree.tree_flatten(x)
        y = tree.tree_unflatten(struct, leaves)
        require(type(y) is type(x), "%s became %s", name, type(y).__name__)
        g2, a2 = (y, a) if name == "graph" else (graph, y)
        close("residuals after flatten and unflatten of the " + name, residuals(g2, a2)[1], r, rtol=TOL, scale=scale)
        info.inner += 1
    for f in b.factors:
        leaves, struct = tree.tree_flatten(f)
        f2 = tree.tree_unflatten(struct, leaves)
        require(tuple(f2.variables) == tuple(f.variables), "a factor lost its variables")
        if len(b.factors) <= 12:
            u, v = (x.compute_residual_vector(x.get_variable_values_from_assignments(a)) for x in (f, f2))
            close("residual of a rebuilt factor", v, u, rtol=TOL, scale=scale)
        info.inner += 1

    # The same change of all parameters, before or after the factors are put together.
    h = case["h"]
    changed = [tree.tree_map(lambda x: np.asarray(x, M.F) * h, f) for f in b.factors]
    rebuilt = core.StackedFactorGraph.make(changed)
    mapped = jdc.replace(graph, factor_stacks=[
        jdc.replace(s, factor=tree.tree_map(lambda x: jnp.asarray(x, M.F) * h, s.factor)) for s in graph.factor_stacks])
    want = residuals(rebuilt, a)
    got = residuals(mapped, a)
    sc = scale + float(np.max(np.abs(want[1])))
    close("residuals after scaling the parameters of the graph", got[1], want[1], rtol=TOL, scale=sc)
    info.inner += 1

    # One parameter of one factor inside a group.
    i = case["pick"] % len(b.factors)
    one = list(b.factors)
    one[i] = changed[i]
    want1 = residuals(core.StackedFactorGraph.make(one), a)
    tried = 0
    for si, s in enumerate(graph.factor_stacks):
        for k in range(s.num_factors):
            if tuple(np.asarray(x)[k].shape for x in tree.tree_leaves(s.factor)) != tuple(
                    np.shape(x) for x in tree.tree_leaves(one[i])):
                continue
            alone = tree.tree_map(lambda x: np.asarray(x)[k], s.factor)
            if not all(np.array_equal(u, v) for u, v in zip(tree.tree_leaves(alone), tree.tree_leaves(b.factors[i]))):
                continue
            if tree.tree_structure(b.factors[i].anonymize_variables()) != tree.tree_structure(s.factor.anonymize_variables()):
                continue
            tried += 1
            with jdc.copy_and_mutate(graph, validate=False) as g3:
                g3.factor_stacks[si].factor = tree.tree_map(
                    lambda x: jnp.asarray(x, M.F).at[k].multiply(h), s.factor)
            first = (si, g3)
    if tried == 1:
        got1 = residuals(first[1], a)
        close("residuals after a change of one factor of the graph", got1[1], want1[1], rtol=TOL, scale=sc)
        info.label("one factor changed in place")
        info.inner += 1

    # Assignments: leaves are the values.
    doubled = tree.tree_map(lambda x: x * 2, a)
    for j in used:
        v = b.vars[j]
        for u, w in zip(tree.tree_leaves(doubled.get_value(v)), tree.tree_leaves(a.get_value(v))):
            close("doubled value", u, 2 * np.asarray(w, float), rtol=1e-6)

    # Values can be stacked and concatenated along an axis.
    vals = [M.KINDS[b.kinds[j]].make(flats[j]) for j in used if b.kinds[j] == b.kinds[used[0]]]
    if vals:
        ax = case["axis"]
        rows = [tree.tree_map(lambda x: np.stack([np.asarray(x), np.asarray(x) + 1]), v) for v in vals]
        if all(np.ndim(x) >= (1 if ax == 1 else 0) for x in tree.tree_leaves(vals[0])):
            st_ = utils.pytree_stack(*vals, axis=ax)
            for n, leaf in enumerate(tree.tree_leaves(st_)):
                close("pytree_stack", leaf, np.stack([np.asarray(tree.tree_leaves(v)[n]) for v in vals], axis=ax), rtol=1e-6)
            info.label("stacked along axis %d" % ax)
        if all(np.ndim(x) >= 2 for x in tree.tree_leaves(rows[0])) or ax == 0:
            ct = utils.pytree_concatenate(*rows, axis=ax)
            for n, leaf in enumerate(tree.tree_leaves(ct)):
                close("pytree_concatenate", leaf, np.concatenate([np.asarray(tree.tree_leaves(v)[n]) for v in rows], axis=ax), rtol=1e-6)

    # None of this changed the originals.
    for name, x, snap in zip(["graph", "assignments"] + ["factor"] * len(b.factors), [graph, a] + list(b.factors), snaps):
        same_snapshot(name, x, snap)
    close("residuals of the original afterwards", residuals(graph, a)[1], r, rtol=TOL, scale=scale)
    info.nontrivial = lab["stacked"] and float(np.max(np.abs(want[1] - r))) > 1e-3

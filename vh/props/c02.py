"""C02: sparse Jacobian against central differences of the numpy reference."""
import numpy as np
from scipy.optimize import linear_sum_assignment

from .. import gen, huge, models as M
from ..cmp import close
from ..env import X64, Violation, require
from ..gen import st

from jaxfg import core

N_QUICK = 110
BUDGET_QUICK = 50
N_THOROUGH = 3000
RULE = (
    "the Jacobian touches at least two variables and has at least two factors in a group or two groups; "
    "the reference derivative is nonzero"
)
TOL = 2e-6 if X64 else 5e-3


@st.composite
def _cases(draw, tier):
    big = tier != "quick"
    if X64 and draw(st.integers(0, 49)) == 27:
        return dict(huge=draw(huge.SIZES), s=draw(gen.SEEDS))
    g = draw(gen.graphs(
        noises=("d", "f", "f", "c"), max_factors=16 if big else 8, max_vars=8 if big else 5,
        max_tpl=5 if big else 4, grow=8, many=(20, 60),
    ))
    g["x"] = [[draw(gen.SEEDS), draw(st.sampled_from("nnnz"))] for _ in range(2)]
    g["order"] = draw(gen.SEEDS)
    g["onp"] = draw(st.booleans())
    return g


def strategy(tier):
    return _cases(tier)


def factor_jacobian(ref, flats, kinds, relative=False):
    """Whitened derivative blocks [(variable index, matrix)] by central differences."""
    out = {}
    xs = [flats[i] for i in ref.v]
    h = 1e-3
    for i in dict.fromkeys(ref.v):
        k = M.KINDS[kinds[i]]
        cols = []
        for d in range(k.local):
            def at(t):
                e = np.zeros(k.local)
                e[d] = t
                moved = [k.retract(x, e) if j == i else x for j, x in zip(ref.v, xs)]
                return ref.W @ (ref.relative(xs, moved) if relative else ref.raw(moved))

            cols.append((8 * (at(h) - at(-h)) - (at(2 * h) - at(-2 * h))) / (12 * h))
        out[i] = np.stack(cols, axis=1)
    return out


def reference(case, b, flats, used, layout):
    """Rows [residual | dense Jacobian in layout columns], and the alternative with the
    relative linearisation of built-in Lie factors."""
    ncol = layout.dim
    rows, alt, lie_rows = [], [], []
    for ref in b.refs:
        r = ref.whitened([flats[i] for i in ref.v])
        blocks = factor_jacobian(ref, flats, b.kinds)
        A = np.zeros((len(r), ncol))
        for i, m in blocks.items():
            j = layout.index_from_variable[b.vars[i]]
            A[:, j:j + m.shape[1]] += m
        B = A
        if ref.relative is not None:
            blocks = factor_jacobian(ref, flats, b.kinds, relative=True)
            B = np.zeros((len(r), ncol))
            for i, m in blocks.items():
                j = layout.index_from_variable[b.vars[i]]
                B[:, j:j + m.shape[1]] += m
        rows.append(np.column_stack([r, A]))
        alt.append(np.column_stack([r, B]))
        lie_rows += [ref.relative is not None] * len(r)
    return np.concatenate(rows), np.concatenate(alt), np.array(lie_rows)


def dense(Asp):
    A = np.zeros(Asp.shape)
    np.add.at(A, (np.asarray(Asp.coords.rows), np.asarray(Asp.coords.cols)), np.asarray(Asp.values, float))
    return A


def check_huge(case, info):
    graph, a, want, change, storage, rs = huge.make(case["huge"], case["s"])
    r = graph.compute_whitened_residual_vector(a)
    Asp = graph.compute_whitened_residual_jacobian(a, r)
    n = len(want)
    require(tuple(Asp.shape) == (n, n), "Jacobian shape %s, expected %s", Asp.shape, (n, n))
    rows, cols = np.asarray(Asp.coords.rows), np.asarray(Asp.coords.cols)
    require(rows.min() >= 0 and rows.max() < n and cols.min() >= 0 and cols.max() < n, "Jacobian coordinates out of range")
    d = rs.randint(-16, 17, (case["huge"], huge.DIM)) * 0.125
    got = np.zeros(n)
    np.add.at(got, rows, np.asarray(Asp.values, float) * np.asarray(storage(d, graph.local_storage_layout), float)[cols])
    # Rows are matched by their residuals, which all differ.
    i, j = np.argsort(np.asarray(r, float)), np.argsort(want)
    close("residuals (sorted)", np.asarray(r, float)[i], want[j])
    close("Jacobian times a vector", got[i], change(d).reshape(-1)[j])
    info.label("tens of thousands of residuals")
    info.inner += 1
    info.nontrivial = True


def check(case, info):
    if case.get("huge"):
        return check_huge(case, info)
    b = M.build(case)
    used = M.used_vars(case)
    graph = core.StackedFactorGraph.make(b.factors, use_onp=case["onp"])
    order = M.permutation(case["order"], len(b.vars))
    lab = gen.graph_labels(case, info)
    total = sum(r.rdim for r in b.refs)
    local = sum(M.KINDS[b.kinds[i]].local for i in used)
    layout = graph.local_storage_layout
    for seed, style in case["x"]:
        flats = M.flats_for(case, seed, style)
        if not M.residual_angle_ok(b.refs, flats, 2.6):
            info.label("skipped: rotation near pi")
            continue
        info.inner += 1
        a = M.assignments_for(b, flats, order, used)
        res = graph.compute_whitened_residual_vector(a)
        Asp = graph.compute_whitened_residual_jacobian(a, res)
        require(tuple(Asp.shape) == (total, local), "Jacobian shape %s, expected %s", Asp.shape, (total, local))
        rows, cols = np.asarray(Asp.coords.rows), np.asarray(Asp.coords.cols)
        require(
            rows.size == 0 or (rows.min() >= 0 and rows.max() < total and cols.min() >= 0 and cols.max() < local),
            "Jacobian coordinates out of range",
        )
        require(layout.dim == local, "local layout dim %s, expected %s", layout.dim, local)
        got = np.column_stack([np.asarray(res, float), dense(Asp)])
        want, alt, is_lie = reference(case, b, flats, used, layout)
        if not np.all(np.isfinite(got)):
            raise Violation("Jacobian not finite")
        scale = max(1.0, float(np.max(np.abs(want))))
        # Rows of the library's matrix in any order: match them with the reference rows.
        def dist(ref):
            return np.max(np.abs(got[:, None, :] - ref[None, :, :]), axis=2)

        d_exact, d_alt = dist(want), dist(alt)
        d = np.where(is_lie[None, :], np.minimum(d_exact, d_alt), d_exact)
        ri, ci = linear_sum_assignment(np.minimum(d, 1e6))
        worst = float(d[ri, ci].max())
        if worst > TOL * scale:
            k = int(np.argmax(d[ri, ci]))
            raise Violation(
                "row %d of [residual | Jacobian] matches no reference row (best difference %.3g)\n got %s\n want %s"
                % (ri[k], worst, got[ri[k]], want[ci[k]])
            )
        off = d_exact[ri, ci] > TOL * scale
        if np.any(off & is_lie[ci]):
            info.known_finding("lie-log-derivative")
            info.label("rows in the known relative-linearisation form", int(np.sum(off)))
        if len(used) > 1 and (lab["stacked"] or lab["groups"] > 1) and np.any(want[:, 1:] != 0):
            info.nontrivial = True

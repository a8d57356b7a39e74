"""C17: marginal covariances against dense inverses, over query histories."""
import numpy as np

from .. import gen, models as M, solvercase, steps
from ..cmp import close
from ..env import X64, require
from ..gen import st

from jaxfg import core
from jaxfg.experimental import SparseCovariance

N_QUICK = 90
BUDGET_QUICK = 60
N_THOROUGH = 2500
X32_WORKERS = 1
RULE = "three or more variables, some covariance between different variables nonzero, two or more queries"


@st.composite
def _cases(draw, tier):
    big = tier != "quick"
    g = draw(gen.graphs(
        types=["lin", "nl", "pri", "bet", "bet"], noises=("d", "f"), max_kinds=2, max_vars=8 if big else 6,
        max_factors=12 if big else 8, max_arity=2, anchors=True, styles=("n", "n", "o"), min_tpl=1, grow=8, many=(12, 25),
        min_vars=3 if draw(st.integers(0, 3)) else 1,
    ))
    g["x0"] = [draw(gen.SEEDS), "n"]
    g["order"] = draw(gen.SEEDS)
    q = st.one_of(
        st.tuples(st.just("m"), st.lists(st.integers(0, 7), min_size=1, max_size=3)),
        st.tuples(st.just("e"), st.integers(0, 30), st.integers(0, 30)),
        st.tuples(st.just("d"), st.booleans()),
    )
    if draw(st.integers(0, 15)) == 1:  # a long chain instead
        g["chain"] = draw(st.integers(20, 700))
    g["q"] = [list(x) for x in draw(st.lists(q, min_size=1, max_size=6))]
    return g


def strategy(tier):
    return _cases(tier)


def chain(case):
    """The case with its graph replaced by a chain of scalar vectors."""
    n = case["chain"]
    tpl = [dict(t="lin", k=["r1"], r=1, n="d", s=0), dict(t="lin", k=["r1", "r1"], r=1, n="d", s=0)]
    fs = [dict(p=0, v=[i], s=i + 3, y="n") for i in range(n)]
    fs += [dict(p=1, v=[i, i + 1], s=2 * i + case["order"], y="n") for i in range(n - 1)]
    q = [x for x in case["q"] if x[0] != "d"] + [["m", [0, n - 1]]]
    return dict(case, vars=["r1"] * n, tpl=tpl, fs=fs, q=q)


def check(case, info):
    if case.get("chain"):
        case = chain(case)
        info.label("long chain")
    prob, start, order = solvercase.setup(case)
    b = prob.b
    if not M.residual_angle_ok(b.refs, start, 2.6):
        info.label("skipped: rotation near pi")
        return
    a = prob.assignments(start, order)
    _, r, A = prob.linearise(a)
    G = A.T @ A
    w = np.linalg.eigvalsh(G)
    if w[0] < (1e-2 if X64 else 0.1) or w[-1] / w[0] > (1e6 if X64 else 3e2):
        info.label("skipped: ill-conditioned")
        return
    S = np.linalg.inv(G)
    sc = float(np.max(np.abs(S)))
    tol = 1e-7 if X64 else 1e-2
    lay = prob.graph.local_storage_layout
    cov = SparseCovariance.make(prob.graph, a)
    for k, q in enumerate(case["q"]):
        info.inner += 1
        if q[0] == "m":
            vs = [prob.used[i % len(prob.used)] for i in q[1]]
            if k % 2 == 0:
                vs = list(dict.fromkeys(vs))
            idx = []
            for i in vs:
                s = lay.index_from_variable[b.vars[i]]
                idx += list(range(s, s + M.KINDS[b.kinds[i]].local))
            got = cov.compute_marginal(*[b.vars[i] for i in vs])
            close("query %d: marginal of %s" % (k, vs), got, S[np.ix_(idx, idx)], rtol=tol, scale=sc)
            close("query %d: symmetry" % k, got, np.asarray(got).T, rtol=tol, scale=sc)
        elif q[0] == "e":
            i, j = q[1] % lay.dim, q[2] % lay.dim
            close("query %d: entry (%d, %d)" % (k, i, j), cov[i, j], S[i, j], rtol=tol, scale=sc)
        else:
            got = np.asarray(cov.as_dense(use_inverse=q[1]))
            close("query %d: dense, use_inverse=%s" % (k, q[1]), got, S, rtol=tol, scale=sc)
        info.label("query " + q[0])
    gen.graph_labels(case, info)
    off = S.copy()
    for i in prob.used:
        s = lay.index_from_variable[b.vars[i]]
        n = M.KINDS[b.kinds[i]].local
        off[s:s + n, s:s + n] = 0
    if np.max(np.abs(off)) > 1e-9:
        info.label("correlated variables")
    info.nontrivial = len(prob.used) >= 3 and np.max(np.abs(off)) > 1e-9 and len(case["q"]) >= 2

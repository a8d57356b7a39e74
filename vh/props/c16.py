"""C16: joint negative log-likelihood against numpy."""
import numpy as np

from .. import gen, models as M
from ..cmp import close
from ..env import X64, require
from ..gen import st

from jaxfg import core, noises

N_QUICK = 110
BUDGET_QUICK = 50
N_THOROUGH = 4000
RULE = "two or more factors, at least one log-determinant away from zero by more than 0.1"


@st.composite
def _cases(draw, tier):
    big = tier != "quick"
    g = draw(gen.graphs(noises=("d", "f"), max_factors=16 if big else 8, max_vars=8 if big else 5, max_tpl=4, grow=8))
    g["x"] = [[draw(gen.SEEDS), draw(st.sampled_from("nnz"))] for _ in range(2)]
    g["order"] = draw(gen.SEEDS)
    # A block of factors with many dimensions or an extreme noise scale.
    g["wide"] = draw(st.sampled_from([0, 0, 3, 40, 150]))
    g["pw"] = draw(st.sampled_from([0, 0, -6, 6, 3]))
    g["neg"] = draw(st.booleans())
    g["wk"] = draw(st.sampled_from(["d", "f"]))
    return g


def strategy(tier):
    return _cases(tier)


def check(case, info):
    b = M.build(case)
    used = M.used_vars(case)
    factors, refs = list(b.factors), list(b.refs)
    if case["wide"]:
        # residual = replicated features of one variable, in `wide` dimensions.
        i = used[0]
        k = M.KINDS[b.kinds[i]]
        r = case["wide"]
        if case["wk"] == "f":
            r = min(r, 40)
        W = (0.5 + np.abs(M.nums(case["order"], r))) * 10.0 ** case["pw"]
        if case["neg"]:
            W[0] = -W[0]  # square roots are only determined up to sign
        mat = M.nums(case["order"] + 1, r * k.fdim).reshape(r, k.fdim)
        if case["wk"] == "d":
            nm, Wm = noises.DiagonalGaussian(sqrt_precision_diagonal=np.asarray(W, M.F)), np.diag(W)
        else:
            Wm = np.diag(W)
            Wm[-1, 0] += W[-1] * 0.5 if r > 1 else 0.0
            nm = noises.Gaussian(sqrt_precision_matrix=np.asarray(Wm, M.F))
        factors.append(M.LinearFactor(
            variables=(b.vars[i],), noise_model=nm, mats=(np.asarray(mat, M.F),), bias=np.zeros(r, M.F)))
        refs.append(M.RefFactor(
            (i,), lambda xs, mat=mat, k=k: mat @ k.rfeats(xs[0]), Wm, None, "lin", r))
        info.label("wide block %s" % case["wk"])
    graph = core.StackedFactorGraph.make(factors)
    order = M.permutation(case["order"], len(b.vars))
    gen.graph_labels(case, info)
    logdets = [-2.0 * np.linalg.slogdet(r.W)[1] for r in refs]
    for seed, style in case["x"]:
        flats = M.flats_for(case, seed, style)
        if not M.residual_angle_ok(refs, flats):
            info.label("skipped: rotation near pi")
            continue
        info.inner += 1
        a = M.assignments_for(b, flats, order, used)
        maha = [float(np.sum((r.W @ r.raw([flats[i] for i in r.v])) ** 2)) for r in refs]
        want = sum(maha) + sum(logdets)
        scale = max(1.0, sum(maha), sum(abs(x) for x in logdets))
        tol = 1e-8 if X64 else 3e-3
        got = graph.compute_joint_nll(a)
        require(np.shape(got) == (), "joint NLL has shape %s", np.shape(got))
        close("joint NLL", got, want, rtol=tol, scale=scale)
        close("joint NLL, include_constants=False", graph.compute_joint_nll(a, include_constants=False), want, rtol=tol, scale=scale)
    if len(refs) > 1 and any(abs(x) > 0.1 for x in logdets):
        info.nontrivial = True

"""C09: linear-Gaussian graphs, every solver combination, against dense least squares."""
import numpy as np

from .. import gen, models as M, solvercase, steps
from ..cmp import close
from ..env import X64, Violation, require
from ..gen import st

from jaxfg import core, solvers, sparse

N_QUICK = 60
BUDGET_QUICK = 50
N_THOROUGH = 1500
X32_WORKERS = 2
HANG_IS_VIOLATION = 1
RULE = "two or more variables coupled by a factor; start at least 0.1 away from the optimum"


@st.composite
def _cases(draw, tier):
    big = tier != "quick"
    g = draw(gen.graphs(
        kinds=M.EUCLID_KINDS, types=["lin", "ln", "pd", "sp"], noises=("d", "f", "c"), max_kinds=3,
        max_vars=8 if big else 5, max_factors=14 if big else 8, max_arity=3, anchors=True,
        styles=("n", "n", "b", "z"), min_tpl=1, grow=10, many=(10, 30), min_vars=2 if draw(st.integers(0, 3)) else 1,
    ))
    g["x0"] = [draw(gen.SEEDS), draw(st.sampled_from("nnbz"))]
    g["order"] = draw(gen.SEEDS)
    g["solver"] = draw(st.sampled_from(["gn", "lm", "dl", "fixed", "fixedloop"]))
    g["lin"] = draw(st.sampled_from(["chol", "cg", "icg"]))
    g["default"] = draw(st.booleans())
    g["onp"] = draw(st.booleans())
    return g


def strategy(tier):
    return _cases(tier)


def reference(prob):
    """Dense weighted least squares from the reference residuals (affine in the flats)."""
    used, kinds = prob.used, prob.b.kinds
    off, n = {}, 0
    for i in used:
        off[i] = n
        n += M.KINDS[kinds[i]].dim
    zero = [np.zeros(M.KINDS[k].dim) for k in kinds]
    rows, rhs = [], []
    for ref in prob.b.refs:
        r0 = ref.whitened([zero[i] for i in ref.v])
        A = np.zeros((len(r0), n))
        for i in dict.fromkeys(ref.v):
            for d in range(M.KINDS[kinds[i]].dim):
                z = list(zero)
                z[i] = np.eye(M.KINDS[kinds[i]].dim)[d]
                A[:, off[i] + d] = ref.whitened([z[j] for j in ref.v]) - r0
        rows.append(A)
        rhs.append(-r0)
    A, b = np.concatenate(rows), np.concatenate(rhs)
    s = np.linalg.svd(A, compute_uv=False)
    x = np.linalg.lstsq(A, b, rcond=None)[0]
    flats = [None] * len(kinds)
    for i in used:
        flats[i] = x[off[i]:off[i] + M.KINDS[kinds[i]].dim]
    return flats, float(np.sum((A @ x - b) ** 2)), s, A


def make_solver(case):
    lin = case["lin"]
    if lin == "chol":
        ls = sparse.CholmodSolver()
    elif lin == "cg":
        ls = sparse.ConjugateGradientSolver(tolerance=1e-10 if X64 else 1e-6)
    else:
        ls = sparse.InexactStepConjugateGradientSolver(inexact_step_eta=1e-3)
    s = case["solver"]
    if s.startswith("fixed"):
        return solvers.FixedIterationGaussNewtonSolver(
            verbose=False, linear_solver=ls, unroll=s == "fixed", iterations=4)
    cls = dict(gn=solvers.GaussNewtonSolver, lm=solvers.LevenbergMarquardtSolver, dl=solvers.DoglegSolver)[s]
    if case["default"]:
        return cls(verbose=False, linear_solver=ls)
    return cls(verbose=False, linear_solver=ls, max_iterations=60, cost_tolerance=0.0,
               gradient_tolerance=0.0, parameter_tolerance=1e-12)


def check(case, info):
    b = M.build(case)
    used = M.used_vars(case)
    graph = core.StackedFactorGraph.make(b.factors, use_onp=case["onp"])
    prob = steps.Problem(case, b, graph, used)
    want, cmin, s, A = reference(prob)
    n = A.shape[1]
    if len(s) < n or s[-1] ** 2 < 0.05 or (s[0] / s[-1]) ** 2 > (1e5 if X64 else 2e3):
        info.label("skipped: ill-conditioned")
        return
    start = M.flats_for(case, *case["x0"])
    order = M.permutation(case["order"], len(b.vars))
    a0 = prob.assignments(start, order)
    info.inner += 1
    out = prob.flats(graph.solve(a0, solver=make_solver(case)))
    if not prob.finite(out):
        raise Violation("solution is not finite")
    kappa = (s[0] / s[-1]) ** 2
    wn = max(1.0, prob.norm(want))
    if case["default"] and case["solver"] in ("gn", "lm", "dl"):
        # Default stopping rules end within about 1e-5 of the optimal cost (relative).
        c = prob.cost(out)
        c0 = prob.cost(start)
        slack = 1e-3 * cmin + (1e-7 if X64 else 1e-3) * wn * wn * s[0] ** 2 + 1e-6 * min(c0, 1.0) + (0 if X64 else 1e-3 * cmin)
        if case["lin"] == "icg":
            slack += 1e-3 * cmin + 1e-4 * wn
        if c > cmin + slack:
            raise Violation("cost %.9g of the solution, optimum %.9g (start %.9g)" % (c, cmin, c0))
        info.label("default tolerances")
    else:
        tol = (1e-6 if X64 else 3e-3) * max(1.0, np.sqrt(kappa) * 0.1)
        if case["solver"].startswith("fixed"):
            # Four steps; each leaves at most (regulariser or CG tolerance) of the error.
            rate = dict(chol=1.2e-5 / s[-1] ** 2, cg=1e-6, icg=1e-3 * kappa)[case["lin"]]
            tol += min(1.0, rate) ** 3 * (prob.norm(start) + wn) * kappa
            if rate > 0.2:
                info.label("skipped: inexact steps on an ill-conditioned system")
                return
        for i in used:
            close("variable %d (%s)" % (i, b.kinds[i]), out[i], want[i], rtol=tol, scale=wn)
        info.label("tight tolerances")
    gen.graph_labels(case, info)
    info.label("%s + %s" % (case["solver"], case["lin"]))
    coupled = any(len(set(f["v"])) > 1 for f in case["fs"])
    info.nontrivial = coupled and prob.distance([x if x is not None else None for x in start], want) > 0.1

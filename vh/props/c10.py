"""C10: reordering factors, variables and storage does not change solutions."""
import numpy as np

from .. import gen, models as M, solvercase, steps
from ..cmp import close
from ..env import X64, Violation, require
from ..gen import st

from jaxfg import core, solvers

N_QUICK = 55
BUDGET_QUICK = 70
N_THOROUGH = 1000
X32_WORKERS = 0
HANG_IS_VIOLATION = 1
RULE = "the two runs differ in factor order or storage order, and the solver moves some variable by more than 0.01"


@st.composite
def _cases(draw, tier):
    g = draw(solvercase.problems(tier, noises=("d", "f", "hd", "c")))
    g["solver"] = draw(st.sampled_from(["gn", "lm", "dl", "fixed", "fixedloop"]))
    g["perm"] = draw(gen.SEEDS)
    g["order2"] = draw(gen.SEEDS)
    g["iters"] = draw(st.integers(1, 5))
    g["default"] = draw(st.integers(0, 2)) == 0
    return g


def strategy(tier):
    return _cases(tier)


def make_solver(case):
    ls = steps.linear_solver(case["lin"])
    s = case["solver"]
    if s.startswith("fixed"):
        return solvers.FixedIterationGaussNewtonSolver(
            verbose=False, linear_solver=ls, unroll=s == "fixed", iterations=case["iters"])
    if case["default"]:
        cls = dict(gn=solvers.GaussNewtonSolver, lm=solvers.LevenbergMarquardtSolver, dl=solvers.DoglegSolver)[s]
        return cls(verbose=False, linear_solver=ls)
    return steps.solver(s, ls, case["iters"])


def check(case, info):
    prob, start, order = solvercase.setup(case)
    if not M.residual_angle_ok(prob.b.refs, start, 2.5):
        info.label("skipped: rotation near pi")
        return
    a0 = prob.assignments(start, order)
    keep = np.array(a0.storage)
    out1 = steps.attempt(prob, lambda: prob.graph.solve(a0, solver=make_solver(case)), start, order, case["solver"])
    if out1 is None:
        info.label("skipped: diverged")
        return
    require(np.array_equal(keep, np.array(a0.storage)), "the initial assignments were changed")
    require(out1.storage_layout == a0.storage_layout, "the solution has another storage layout than the start")
    require(list(out1.get_variables()) == list(a0.get_variables()), "the solution lists other variables")
    y1 = prob.flats(out1)
    if not prob.finite(y1) or prob.norm(y1) > 1e3:
        info.label("skipped: diverged")
        return
    # Second run: factors, variables and storage in another order, fresh solver object.
    perm = M.permutation(case["perm"], len(prob.b.factors))
    graph2 = core.StackedFactorGraph.make([prob.b.factors[i] for i in perm])
    order2 = M.permutation(case["order2"], len(prob.b.vars))
    b0 = prob.assignments(start, order2)
    out2 = steps.attempt(prob, lambda: graph2.solve(b0, solver=make_solver(case)), start, order, case["solver"])
    if out2 is None:
        info.label("skipped: diverged")
        return
    require(out2.storage_layout == b0.storage_layout, "the solution has another storage layout than the start (reordered)")
    y2 = prob.flats(out2)
    info.inner += 1
    if not prob.finite(y2):
        raise Violation("reordered solve is not finite, the first one is")
    size = 1 + max(float(np.max(np.abs(y1[i]))) for i in prob.used)
    sp = steps.spread(prob, lambda a: prob.graph.solve(a, solver=make_solver(case)), start, order, y1, case["solver"])
    if sp is None or sp > 1e-5 * size:
        info.label("skipped: unstable")
        return
    tol = 100 * sp + 1e-6 * size
    d = prob.distance(y1, y2)
    if d > tol:
        worst = max(prob.used, key=lambda i: np.max(np.abs(M.canon(prob.b.kinds[i], y1[i]) - M.canon(prob.b.kinds[i], y2[i]))))
        raise Violation(
            "solutions differ by %.3g (allowed %.3g) between orders; variable %d (%s): %s and %s"
            % (d, tol, worst, prob.b.kinds[worst], y1[worst], y2[worst]))
    gen.graph_labels(case, info)
    info.label("solver %s %s" % (case["solver"], case["lin"]))
    reordered = perm != list(range(len(perm))) or order != order2
    info.nontrivial = reordered and prob.distance(y1, [None if x is None else x for x in start]) > 0.01

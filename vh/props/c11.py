"""C11: Gauss-Newton iterates against one-step references."""
import numpy as np

from .. import models as M, solvercase, steps
from ..cmp import close
from ..env import X64, Violation
from ..gen import st

from jaxfg import solvers

N_QUICK = 60
BUDGET_QUICK = 70
N_THOROUGH = 1500
X32_WORKERS = 0
HANG_IS_VIOLATION = 1
RULE = "at least two verified steps longer than ten times the tolerance, on a graph with two or more residuals"


@st.composite
def _cases(draw, tier):
    g = draw(solvercase.problems(tier, noises=("d", "f", "hd", "hf", "c")))
    g["K"] = draw(st.integers(2, 5))
    g["fixed"] = draw(st.sampled_from(["no", "unroll", "loop", "loop"]))
    return g


def strategy(tier):
    return _cases(tier)


def check(case, info):
    prob, start, order = solvercase.setup(case)
    if not M.residual_angle_ok(prob.b.refs, start, 2.5):
        info.label("skipped: rotation near pi")
        return
    K = case["K"]
    ys, raw = steps.free_run(prob, "gn", case["lin"], start, order, K, {})
    recs = steps.walk(prob, "gn", case["lin"], ys, raw, {})
    solvercase.labels(case, info, recs)
    good = [r for r in recs if r.get("big")]
    info.nontrivial = len(good) >= 2
    if case["fixed"] != "no":
        # The fixed-iteration solver performs exactly the same steps.
        n = 1 + case["x0"][0] % K
        s = solvers.FixedIterationGaussNewtonSolver(
            verbose=False, linear_solver=steps.linear_solver(case["lin"]),
            unroll=case["fixed"] == "unroll", iterations=n,
        )
        if all("stop" not in r for r in recs[:n]) and len(recs) >= n:
            y = prob.flats(prob.graph.solve(raw[0], solver=s))
            info.label("fixed iterations " + case["fixed"])
            size = 1 + max(float(np.max(np.abs(ys[n][i]))) for i in prob.used)
            d = prob.distance(y, ys[n])
            if not d < 1e-6 * size:
                sp = steps.spread(prob, lambda a: prob.graph.solve(a, solver=s), start, order, y, "gn")
                if sp is None or d < 100 * sp:
                    info.label("fixed iterations unstable")
                    return
                raise Violation(
                    "FixedIterationGaussNewtonSolver(iterations=%d, unroll=%s) is %.3g away from %d Gauss-Newton steps"
                    % (n, case["fixed"] == "unroll", d, n))

"""C12: Levenberg-Marquardt iterates against one-step references with tracked damping."""
from .. import models as M, solvercase, steps
from ..gen import SEEDS, st

N_QUICK = 60
BUDGET_QUICK = 70
N_THOROUGH = 1500
X32_WORKERS = 0
HANG_IS_VIOLATION = 1
RULE = "at least one rejected step followed by another verified step, or three accepted steps"


@st.composite
def _cases(draw, tier):
    g = draw(st.one_of(solvercase.hard_problems(tier), solvercase.hard_problems(tier), solvercase.problems(tier)))
    g["K"] = draw(st.integers(4, 9))
    lam = draw(st.sampled_from([5e-4, 0.02, 0.25, 2.0, 30.0]))
    g["p"] = dict(
        lambda_initial=lam,
        lambda_factor=draw(st.sampled_from([2.0, 3.0, 10.0])),
        lambda_min=draw(st.sampled_from([1e-5, 0.5, 4.0])),
        lambda_max=draw(st.sampled_from([1e10, 1e10, 8.0])),
        step_quality_min=draw(st.sampled_from([1e-3, 1e-3, 0.3, 0.7, 0.95])),
    )
    return g


def strategy(tier):
    return _cases(tier)


def run(case, info, kind):
    prob, start, order = solvercase.setup(case)
    if not M.residual_angle_ok(prob.b.refs, start, 2.5):
        info.label("skipped: rotation near pi")
        return
    ys, raw = steps.free_run(prob, kind, case["lin"], start, order, case["K"], case["p"])
    recs = steps.walk(prob, kind, case["lin"], ys, raw, case["p"])
    solvercase.labels(case, info, recs)
    good = [r for r in recs if r.get("big") and "accepted" in r]
    rej = [i for i, r in enumerate(good) if not r["accepted"]]
    if any(i + 1 < len(good) for i in rej):
        info.label("a step after a rejection was verified")
        info.nontrivial = True
    if sum(1 for r in good if r["accepted"]) >= 3:
        info.nontrivial = True


def check(case, info):
    run(case, info, "lm")

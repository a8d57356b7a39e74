"""C13: dogleg iterates against one-step references with tracked trust radius."""
from .. import solvercase
from ..gen import st
from .c12 import run

N_QUICK = 60
BUDGET_QUICK = 70
N_THOROUGH = 1500
X32_WORKERS = 0
HANG_IS_VIOLATION = 1
RULE = "at least one rejected step followed by another verified step, or three accepted steps"


@st.composite
def _cases(draw, tier):
    g = draw(st.one_of(solvercase.hard_problems(tier), solvercase.hard_problems(tier), solvercase.problems(tier)))
    g["K"] = draw(st.integers(4, 9))
    g["p"] = dict(
        radius_initial=draw(st.sampled_from([0.05, 0.5, 1.0, 4.0, 50.0])),
        step_quality_min=draw(st.sampled_from([1e-3, 1e-3, 0.3, 0.7, 0.9])),
    )
    return g


def strategy(tier):
    return _cases(tier)


def check(case, info):
    run(case, info, "dl")

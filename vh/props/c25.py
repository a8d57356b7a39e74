"""C25: progress messages report the iterates and change nothing."""
import contextlib
import io
import re

import jax
import numpy as np

from .. import models as M, solvercase, steps
from ..env import Violation, require
from ..gen import st

from jaxfg import solvers

N_QUICK = 40
BUDGET_QUICK = 60
N_THOROUGH = 800
X32_WORKERS = 0
HANG_IS_VIOLATION = 1
RULE = "at least two iterations whose reported costs differ, in a solve that reports progress"


@st.composite
def _cases(draw, tier):
    g = draw(solvercase.hard_problems(tier) if draw(st.booleans()) else solvercase.problems(
        tier, noises=("d", "f", "hd", "c")))
    g["K"] = draw(st.integers(1, 6))
    g["kind"] = draw(st.sampled_from(["gn", "lm", "dl", "fixed", "fixedloop"]))
    g["lam"] = draw(st.sampled_from([5e-4, 0.25]))
    g["radius"] = draw(st.sampled_from([1.0, 0.125]))
    g["twice"] = draw(st.booleans())
    return g


def strategy(tier):
    return _cases(tier)


def make(case, verbose, n):
    lin = steps.linear_solver(case["lin"])
    kind = case["kind"]
    if kind in ("fixed", "fixedloop"):
        return solvers.FixedIterationGaussNewtonSolver(
            verbose=verbose, linear_solver=lin, unroll=kind == "fixed", iterations=n)
    cls = dict(gn=solvers.GaussNewtonSolver, lm=solvers.LevenbergMarquardtSolver, dl=solvers.DoglegSolver)[kind]
    extra = dict(gn={}, lm=dict(lambda_initial=case["lam"]), dl=dict(radius_initial=case["radius"]))[kind]
    return cls(verbose=verbose, linear_solver=lin, max_iterations=n, **steps.FREE, **extra)


def captured(f):
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        y = f()
        jax.block_until_ready(y.storage)
        jax.effects_barrier()
        from jax.experimental import host_callback as hcb

        hcb.barrier_wait()
    return y, out.getvalue()


NUMBER = r"[-+]?(?:\d+\.?\d*(?:[eE][-+]?\d+)?|\.\d+|nan|inf)"


def parse(text):
    """(iteration, cost) per reported line."""
    out = []
    for line in text.splitlines():
        i = re.search(r"[Ii]teration\D*(\d+)", line)
        c = re.search(r"cost\s*[=:]\s*(%s)" % NUMBER, line)
        if c:
            out.append((int(i.group(1)) if i else None, float(c.group(1)), line))
    return out


def check(case, info):
    prob, start, order = solvercase.setup(case)
    if not M.residual_angle_ok(prob.b.refs, start, 2.5):
        info.label("skipped: rotation near pi")
        return
    K, kind = case["K"], case["kind"]
    a0 = prob.assignments(start, order)
    # Quiet solves stopped after 1..K iterations give the iterates.
    ys = [a0]
    for n in range(1, K + 1):
        y = steps.attempt(prob, lambda: captured(lambda: prob.graph.solve(a0, solver=make(case, False, n))),
                          start, order, kind)
        if y is None:
            info.label("skipped: ran away")
            return
        require(y[1] == "", "a solver with verbose=False printed %r", y[1][:200])
        ys.append(y[0])
    flats = [prob.flats(y) for y in ys]
    if not all(prob.finite(f) and prob.norm(f) < 1e3 for f in flats):
        info.label("skipped: ran away")
        return
    for _ in range(1 + case["twice"]):  # the second solve reuses the compiled one
        y, text = captured(lambda: prob.graph.solve(a0, solver=make(case, True, K)))
        f = prob.flats(y)
        size = 1 + max(float(np.max(np.abs(flats[K][i]))) for i in prob.used)
        d = prob.distance(f, flats[K]) if prob.finite(f) else np.inf
        sp = None
        if not d < 1e-9 * size:
            sp = steps.spread(prob, lambda a: prob.graph.solve(a, solver=make(case, False, K)), start, order, flats[K], kind)
            if sp is None or d < 100 * sp + 1e-6 * size and sp > 1e-9:
                info.label("skipped: unstable")
                return
            raise Violation("verbose=True moved the solution by %.3g (rounding: %.3g)" % (d, sp))
        lines = parse(text)
        costs = [prob.cost(x) for x in flats]
        if not len(lines) == K + 1:
            raise Violation("%d iterations reported by %d cost lines:\n%s" % (K, len(lines), text[:800]))
        for k, (i, c, line) in enumerate(lines):
            if i is not None and i != k:
                raise Violation("line %d of the report is about iteration %d:\n%s" % (k, i, text[:800]))
            # Intermediate iterates come from separately compiled solves.
            if not abs(c - costs[k]) <= 1e-6 * max(abs(costs[k]), 1e-6 * max(costs)) + 1e-12:
                s2 = 0.0
                if k:
                    s2 = steps.spread(prob, lambda a: prob.graph.solve(a, solver=make(case, False, k)), start, order, flats[k], kind)
                if s2 is None or s2 > 1e-9:
                    info.label("skipped: unstable")
                    return
                raise Violation("reported cost %.12g after %d iterations is %.12g:\n%s" % (c, k, costs[k], text[:800]))
        for name, want in [("lambda", case["lam"]), ("radius", case["radius"])]:
            m = re.search(r"%s\s*[=:]\s*(%s)" % (name, NUMBER), lines[0][2])
            if m and not abs(float(m.group(1)) - want) <= 1e-5 * want:
                raise Violation("the first iteration reports %s %s, configured %s" % (name, m.group(1), want))
        info.inner += len(lines)
    info.label("solver " + kind)
    info.label("linear solver " + case["lin"])
    if len(set(costs)) < len(costs):
        info.label("a rejected step")
    info.nontrivial = K >= 2 and len({round(c, 9) for c in costs}) >= 3

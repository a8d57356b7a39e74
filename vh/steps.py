"""Step-by-step reference of the nonlinear solvers, from public pieces of the library.

The library is run with all tolerances zero and max_iterations = 1..K, giving its iterates
y_1..y_K. Every transition y_k -> y_{k+1} is compared with the documented step from y_k,
with the damping or trust radius carried along by the documented rules."""
import functools

import jax
import numpy as np
from jax import numpy as jnp

from . import models as M
from .env import X64, Violation

from jaxfg import core, solvers, sparse

BETA = 1.2e-5  # the CHOLMOD solver may add a regulariser of about 1e-5


def dense(Asp):
    A = np.zeros(Asp.shape)
    np.add.at(A, (np.asarray(Asp.coords.rows), np.asarray(Asp.coords.cols)), np.asarray(Asp.values, float))
    return A


class Problem:
    """A graph, its reference pieces and flat-value plumbing."""

    def __init__(self, case, built, graph, used):
        self.case, self.b, self.graph, self.used = case, built, graph, used
        self.index = {v: i for i, v in enumerate(built.vars)}

    def assignments(self, flats, order=None):
        return M.assignments_for(self.b, flats, order, self.used)

    def flats(self, assignments):
        """Values of the used variables as one float64 list, in variable-index order."""
        out = [None] * len(self.b.vars)
        for i in self.used:
            out[i] = M.flat_of(self.b.kinds[i], assignments.get_value(self.b.vars[i]))
        return out

    def linearise(self, assignments):
        cost, r = self.graph.compute_cost(assignments)
        self.sparse = self.graph.compute_whitened_residual_jacobian(assignments, r)
        A = dense(self.sparse)
        return float(cost), np.asarray(r, float), A

    def cost(self, flats):
        return float(sum(np.sum(r.whitened([flats[i] for i in r.v]) ** 2) for r in self.b.refs))

    def retract(self, flats, step):
        lay = self.graph.local_storage_layout
        out = [None] * len(flats)
        for i in self.used:
            k = M.KINDS[self.b.kinds[i]]
            s = lay.index_from_variable[self.b.vars[i]]
            out[i] = k.retract(flats[i], step[s:s + k.local])
        return out

    def distance(self, fa, fb):
        return max(
            float(np.max(np.abs(M.canon(self.b.kinds[i], fa[i]) - M.canon(self.b.kinds[i], fb[i]))))
            for i in self.used
        )

    def norm(self, flats):
        return float(np.sqrt(sum(np.sum(flats[i] ** 2) for i in self.used)))

    def finite(self, flats):
        return all(np.all(np.isfinite(flats[i])) for i in self.used)


def linear_solver(name, tol=1e-12):
    if name == "chol":
        return sparse.CholmodSolver()
    if name == "cg":
        return sparse.ConjugateGradientSolver(tolerance=tol)
    return sparse.InexactStepConjugateGradientSolver(inexact_step_eta=0.3 if tol == 1e-12 else tol)


CLASSES = dict(gn=solvers.GaussNewtonSolver, lm=solvers.LevenbergMarquardtSolver, dl=solvers.DoglegSolver)
FREE = dict(cost_tolerance=0.0, gradient_tolerance=0.0, parameter_tolerance=0.0,
            gradient_tolerance_start_step=0)


def solver(kind, lin, max_iterations, params=None, **kw):
    args = dict(FREE)
    args.update(kw)
    # Python scalars would be weakly typed leaves; keep one type so that compiles are shared.
    args = {k: (int(v) if k.endswith("start_step") else float(v)) for k, v in args.items()}
    args.update(params or {})
    return CLASSES[kind](verbose=False, linear_solver=lin, max_iterations=int(max_iterations), **args)


@functools.lru_cache(None)
def _subproblem(lin):
    return jax.jit(lambda A, b, lam, k: linear_solver(lin).solve_subproblem(A=A, ATb=b, lambd=lam, iteration=k))


def inexact(problem, r, iteration, lin="icg"):
    """Steps of a conjugate-gradient solver: those of the linear solver itself for this
    iteration number, with the size of the change that rounding makes."""
    Asp = problem.sparse

    def solve(lam):
        b = -(Asp.T @ jnp.asarray(r, M.F))
        xs = [
            np.asarray(_subproblem(lin)(Asp, b * (1 + jit * np.cos(np.arange(len(b)))), float(lam), iteration), float)
            for jit in (0.0, 1e-10, -3e-10)
        ]
        err = max(float(np.linalg.norm(xs[0] - x)) for x in xs[1:])
        if not err <= 1e-6 * np.linalg.norm(xs[0]):
            raise Stop("conjugate-gradient step unstable")
        return xs[0], 50 * err + 1e-9 * float(np.linalg.norm(xs[0]))

    return solve


def solve_linear(A, r, lam, lin, icg=None):
    """Documented step: (A'A + damping) x = -A'r, and a bound on the allowed error."""
    G = A.T @ A
    b = -A.T @ r
    n = len(b)
    damp = lam * (np.eye(n) if lin == "chol" else np.diag(np.diag(G)))
    H = G + damp
    w = np.linalg.eigvalsh(H)
    # Conjugate gradients stop after n iterations, converged or not.
    if lin != "chol":
        x, err = icg(lam)
        return x, err, w
    x = np.linalg.solve(H, b)
    err = (1e-10 * (w[-1] / max(w[0], 1e-300)) + 1e-9) * (np.linalg.norm(x) + 1e-6)
    err += BETA / max(w[0], 1e-300) * np.linalg.norm(x)
    return x, err, w


def attempt(problem, solve, start, order, kind):
    """solve(), or None if the factorisation fails because Gauss-Newton steps, which nothing
    holds back, have run away (as retraced one iteration at a time)."""
    try:
        return solve()
    except Exception as e:
        if kind not in ("gn", "fixed", "fixedloop") or "not positive definite" not in str(e):
            raise
        error = e
    y = problem.assignments(start, order)
    for k in range(100):
        try:
            y = problem.graph.solve(y, solver=solver("gn", linear_solver("chol"), 1))
        except Exception as e:
            if "not positive definite" not in str(e):
                raise
            break
        f = problem.flats(y)
        if not problem.finite(f) or problem.norm(f) > 1e3 or not np.max(np.abs(problem.linearise(y)[2])) < 1e5:
            return None
    raise error


def free_run(problem, kind, lin, start, order, K, params):
    """Library iterates y_0..y_K (float64 flats) with every tolerance off."""
    a0 = problem.assignments(start, order)
    ys = [problem.flats(a0)]
    raw = [a0]
    for k in range(1, K + 1):
        s = solver(kind, linear_solver(lin), k, params)
        y = attempt(problem, lambda: problem.graph.solve(a0, solver=s), start, order, kind)
        if y is None:
            break
        raw.append(y)
        ys.append(problem.flats(y))
    return ys, raw


class Stop(Exception):
    """The walk cannot be continued reliably (not a violation)."""


def dogleg_step(A, r, radius, lin, radius_err=0.0, icg=None):
    x, err, w = solve_linear(A, r, 0.0, lin, icg)
    b = -A.T @ r
    Ab = A @ b
    if float(Ab @ Ab) <= 1e-300:
        raise Stop("zero gradient")
    a = float(b @ b) / float(Ab @ Ab) * b
    if np.linalg.norm(x) <= radius:
        return x, err, w, "gn"
    if np.linalg.norm(a) >= radius:
        return radius / np.linalg.norm(a) * a, 1e-9 * radius + radius_err, w, "sd"
    d = x - a
    dd, ad = float(d @ d), float(a @ d)
    k = radius**2 - float(a @ a)
    disc = np.sqrt(ad * ad + dd * k)
    t = (-ad + disc) / dd if ad <= 0 else k / (ad + disc)
    # The end point depends on x only through the direction of the second leg.
    grow = np.sqrt(dd) * radius / max(disc, 1e-300)  # |d end point / d radius|
    return a + t * d, (4 * err + 2 * radius_err + 1e-9 * radius) * max(1.0, grow), w, "mix"


def walk(problem, kind, lin, ys, raw, params, verify=True, margin=0.01):
    """Returns one record per transition. Raises Violation if verify and a step is wrong."""
    p = dict(lambda_initial=5e-4, lambda_factor=2.0, lambda_min=1e-5, lambda_max=1e10,
             radius_initial=1.0, step_quality_min=1e-3)
    p.update(params or {})
    lam, radius, radius_err = p["lambda_initial"], p["radius_initial"], 0.0
    recs = []
    for k in range(len(ys) - 1):
        y, y1 = ys[k], ys[k + 1]
        if not problem.finite(y) or problem.norm(y) > 1e4:
            recs.append(dict(stop="diverged"))
            break
        if not M.residual_angle_ok(problem.b.refs, y, 2.7):
            recs.append(dict(stop="rotation near pi"))
            break
        cost, r, A = problem.linearise(raw[k])
        if not np.all(np.isfinite(A)):
            if verify:
                raise Violation("iteration %d: Jacobian not finite at a finite point" % k)
            recs.append(dict(stop="not finite"))
            break
        icg = inexact(problem, r, k, lin)
        try:
            if kind == "dl":
                x, err, w, case = dogleg_step(A, r, radius, lin, radius_err, icg)
            else:
                x, err, w = solve_linear(A, r, lam if kind == "lm" else 0.0, lin, icg)
                case = kind
        except Stop as e:
            recs.append(dict(stop=str(e)))
            break
        except np.linalg.LinAlgError:
            recs.append(dict(stop="singular"))
            break
        if w[0] < (1e-3 if lin == "chol" else 1e-10) or w[-1] / w[0] > 1e6:
            recs.append(dict(stop="ill-conditioned"))
            break
        prop = problem.retract(y, x)
        if not problem.finite(prop) or problem.norm(prop) > 1e5 or not M.residual_angle_ok(problem.b.refs, prop, 2.7):
            recs.append(dict(stop="proposal out of range"))
            break
        size = 1 + max(float(np.max(np.abs(prop[i]))) for i in problem.used)
        size = max(size, 1 + max(float(np.max(np.abs(y[i]))) for i in problem.used))
        tol = 8 * size * err + 1e-9 * size
        rec = dict(step=x, err=err, prev=y, A=A, r=r, cost=cost, case=case, lam=lam, radius=radius)
        moved = any(np.any(ys[k][i] != ys[k + 1][i]) for i in problem.used)
        to_prop = problem.distance(prop, y1) if problem.finite(y1) else np.inf
        rec["big"] = problem.distance(prop, y) > 10 * tol
        where = "iteration %d (%s, %s, damping %.4g, radius %.4g)" % (k, case, lin, lam, radius)
        if kind == "gn":
            if verify and to_prop > tol:
                raise Violation("%s: moved to a point %.3g away from the documented step (allowed %.3g)" % (where, to_prop, tol))
            rec["accepted"] = True
            rec["cost_proposed"] = problem.cost(prop)
            recs.append(rec)
            continue
        cost_p = problem.cost(prop)
        pred = float(np.sum((A @ x + r) ** 2)) - cost
        q = (cost_p - cost) / pred if pred != 0 else np.nan
        rec["quality"] = q
        rec["cost_proposed"] = cost_p
        # Rounding in the cost, and the error of the linear solution, blur the quality.
        blur = (1e-11 * cost + 4 * err * np.linalg.norm(A.T @ r)) / max(abs(pred), 1e-300) + margin
        qmin = p["step_quality_min"]
        if not np.isfinite(q) or not blur < 0.2:
            recs.append(dict(stop="quality undetermined"))
            break
        if verify and moved:
            c1 = problem.cost(y1) if problem.finite(y1) else np.inf
            if c1 > cost * (1 + 1e-9) + 1e-12:
                raise Violation("%s: accepted a step that raises the cost from %.9g to %.9g" % (where, cost, c1))
        if q > qmin + blur:
            rec["accepted"] = True
        elif q < qmin - blur:
            rec["accepted"] = False
        else:
            rec["accepted"] = moved
            rec["unsure"] = True
        if verify:
            if rec["accepted"] and rec["big"] and not moved:
                raise Violation("%s: did not move although the step quality is %.4g (minimum %.4g)" % (where, q, qmin))
            if not rec["accepted"] and moved:
                raise Violation("%s: moved although the step quality is %.4g (minimum %.4g)" % (where, q, qmin))
            if rec["accepted"] and to_prop > tol:
                raise Violation(
                    "%s: moved to a point %.3g away from the documented step (allowed %.3g, step length %.3g)"
                    % (where, to_prop, tol, np.linalg.norm(x)))
        recs.append(rec)
        if kind == "lm":
            lam = lam / p["lambda_factor"] if rec["accepted"] else max(
                p["lambda_min"], min(lam * p["lambda_factor"], p["lambda_max"]))
        else:
            if abs(q - 0.25) < blur or abs(q - 0.75) < blur:
                recs.append(dict(stop="radius undetermined"))
                break
            if q < 0.25:
                radius, radius_err = radius / 2, radius_err / 2
            elif q > 0.75:
                radius, radius_err = max(radius, 3 * float(np.linalg.norm(x))), max(radius_err, 3 * err)
    return recs


def spread(problem, solve, start, order, y, kind=""):
    """How far rounding-sized changes of the start move the solution y: None if unstable.

    Conjugate gradients stopped after n iterations, rejected steps and termination tests
    can amplify rounding; comparisons of two solves have to allow for it."""
    out = 0.0
    for n in (0, 1):
        nudged = [None if x is None else M.KINDS[k].retract(x, 1e-11 * np.cos(np.arange(M.KINDS[k].local) + i + n))
                  for i, (x, k) in enumerate(zip(start, problem.b.kinds))]
        w = attempt(problem, lambda: solve(problem.assignments(nudged, order)), nudged, order, kind)
        if w is None:
            return None
        w = problem.flats(w)
        if not problem.finite(w):
            return None
        out = max(out, problem.distance(y, w))
    return out

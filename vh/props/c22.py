"""C22: the iteration at which a solve stops, against the documented termination tests.

The iterates are taken from runs with every tolerance at zero. The documented quantities are
computed at each of them, tolerances are placed relative to these quantities, and the solve
with tolerances has to return the iterate of the first iteration at which a test holds."""
import numpy as np

from .. import models as M, solvercase, steps
from ..env import Violation
from ..gen import SEEDS, st

from jaxfg import core

N_QUICK = 60
BUDGET_QUICK = 80
N_THOROUGH = 1200
X32_WORKERS = 0
HANG_IS_VIOLATION = 1
RULE = "some tolerance ends the solve before the iteration limit at an iterate that differs from its neighbours, or a test that holds only on a rejected or too early step is passed over"


@st.composite
def _cases(draw, tier):
    hard = draw(st.sampled_from([True, True, False]))
    g = draw(solvercase.hard_problems(tier) if hard else solvercase.problems(tier, noises=("d", "f", "hd")))
    g["kind"] = draw(st.sampled_from(["gn", "lm", "lm", "dl", "dl"] if not hard else ["lm", "lm", "dl", "dl", "gn"]))
    g["K"] = draw(st.integers(3, 9))
    g["p"] = {}
    if g["kind"] == "lm":
        g["p"] = dict(lambda_initial=draw(st.sampled_from([5e-4, 0.01, 0.1, 3.0])), lambda_factor=draw(st.sampled_from([2.0, 10.0])),
                      step_quality_min=draw(st.sampled_from([1e-3, 0.7, 0.9])))
    if g["kind"] == "dl":
        g["p"] = dict(radius_initial=draw(st.sampled_from([0.125, 1.0, 8.0])), step_quality_min=draw(st.sampled_from([1e-3, 0.7, 0.9])))
    # Which tests are on, and the step whose quantity the tolerance is set by.
    g["runs"] = [
        dict(on=draw(st.sampled_from(["c", "g", "p", "c", "g", "p", "cg", "cp", "gp", "default"])),
             at=[draw(st.one_of(st.integers(0, g["K"] - 1), st.just(0))) for _ in range(3)],
             start=draw(st.sampled_from([0, 0, 1, 2, 3, 4])),
             up=draw(st.sampled_from([1.5, 1.5, 4.0, 0.5])))
        for _ in range(4)
    ]
    return g


def strategy(tier):
    return _cases(tier)


def quantities(prob, kind, recs, raw):
    out = []
    for k, r in enumerate(recs):
        if "stop" in r or r["cost"] < 1e-9 or r.get("unsure"):
            break
        x = r["step"]
        n = float(np.linalg.norm(x))
        if n < 1e-9:
            break
        if kind != "gn" and not r["big"]:
            break
        lay = prob.graph.local_storage_layout
        a = raw[k].update_storage_layout(prob.graph.storage_layout)
        moved = a.manifold_retract(core.VariableAssignments(storage=np.asarray(-r["A"].T @ r["r"], M.F), storage_layout=lay))
        g = float(np.max(np.abs(np.asarray(a.storage, float) - np.asarray(moved.storage, float))))
        xn = float(np.linalg.norm(np.asarray(a.storage, float)))
        c = abs(r["cost_proposed"] - r["cost"]) / r["cost"]
        noise_c = 1e-12 + 4 * r["err"] * float(np.linalg.norm(r["A"].T @ r["r"])) / r["cost"] + 2 * r["err"] ** 2 * float(np.linalg.norm(r["A"])) ** 2 / r["cost"]
        out.append(dict(acc=r["accepted"], c=c, cn=noise_c, g=g, p=n, pn=r["err"], xn=xn))
    return out


def first_stop(qs, tol, start):
    """(stop index or None, sure?) under the documented tests."""
    for k, q in enumerate(qs):
        hits, doubt = False, False
        if tol["c"] > 0:
            d = q["c"] - tol["c"]
            doubt |= abs(d) <= 1e-3 * tol["c"] + q["cn"]
            hits |= d < 0
        if tol["g"] > 0 and k >= start:
            d = q["g"] - tol["g"]
            doubt |= abs(d) <= 1e-4 * tol["g"] + 1e-11
            hits |= d < 0
        if tol["p"] > 0:
            lim = (q["xn"] + tol["p"]) * tol["p"]
            d = q["p"] - lim
            doubt |= abs(d) <= 1e-3 * lim + q["pn"]
            hits |= d < 0
        if not q["acc"]:
            continue
        if doubt:
            return None, False
        if hits:
            return k, True
    return None, True


def naive(qs, tol):
    """Index at which a test would hold ignoring rejection and start step."""
    for k, q in enumerate(qs):
        if q["c"] < tol["c"] or q["g"] < tol["g"] or q["p"] < (q["xn"] + tol["p"]) * tol["p"]:
            return k
    return None


def check(case, info):
    prob, start, order = solvercase.setup(case)
    if not M.residual_angle_ok(prob.b.refs, start, 2.5):
        info.label("skipped: rotation near pi")
        return
    kind = case["kind"]
    ys, raw = steps.free_run(prob, kind, case["lin"], start, order, case["K"], case["p"])
    recs = steps.walk(prob, kind, case["lin"], ys, raw, case["p"], verify=False)
    qs = quantities(prob, kind, recs, raw)
    K = len(qs)
    info.label("solver " + kind)
    acc = [q["acc"] for q in qs]
    if False in acc and True in acc[acc.index(False):]:
        info.label("rejection followed by acceptance, " + kind)
    if K == 0:
        info.label("skipped: no usable iterates")
        return
    a0 = prob.assignments(start, order)
    for run in case["runs"]:
        tol = dict(c=0.0, g=0.0, p=0.0)
        gs = run["start"]
        if run["on"] == "default":
            tol = dict(c=1e-5, g=1e-9, p=1e-7)
            gs = 10
        else:
            for ch, at in zip("cgp", run["at"]):
                if ch in run["on"]:
                    q = qs[at % K]
                    v = q[ch] * run["up"]
                    if ch == "p":  # solve (xn + t) t = v
                        v = (-q["xn"] + np.sqrt(q["xn"] ** 2 + 4 * v)) / 2
                    tol[ch] = float(np.float64(v))
        stop, sure = first_stop(qs, tol, gs)
        if not sure:
            info.label("run skipped: too close to a threshold")
            continue
        n = K if stop is None else stop + 1
        if run["on"] == "default" and case["order"] % 2:  # nothing given: the documented defaults
            s = steps.CLASSES[kind](verbose=False, linear_solver=steps.linear_solver(case["lin"]), max_iterations=K, **case["p"])
        else:
            s = steps.solver(kind, steps.linear_solver(case["lin"]), K, case["p"], cost_tolerance=tol["c"],
                             gradient_tolerance=tol["g"], parameter_tolerance=tol["p"], gradient_tolerance_start_step=gs)
        y = prob.flats(prob.graph.solve(a0, solver=s))
        info.inner += 1
        size = 1 + max(float(np.max(np.abs(ys[n][i]))) for i in prob.used)
        d = prob.distance(y, ys[n]) if prob.finite(y) else np.inf
        if d > 1e-9 * size:
            near = [k for k in range(len(ys)) if prob.finite(ys[k]) and prob.finite(y) and prob.distance(y, ys[k]) <= 1e-9 * size]
            raise Violation(
                "%s with %s: expected the iterate after %d of at most %d iterations%s, got %s (tests on: %s, tolerances %s, start step %d, quantities %s)"
                % (kind, case["lin"], n, K, "" if stop is None else " (test holds)", "that of iteration %s" % near if near else "a point %.3g away" % d,
                   run["on"], tol, gs, [{k: (float(v) if k != "acc" else v) for k, v in q.items()} for q in qs]))
        other = [k for k in range(len(ys)) if k != n and prob.finite(ys[k]) and prob.distance(ys[n], ys[k]) <= 1e-6 * size]
        nv = naive(qs, tol)
        if stop is not None and n < K:
            info.label("stopped by " + run["on"])
            if not any(k < n or k == n + 1 for k in other):
                info.nontrivial = True
        elif stop is None:
            info.label("ran to the limit")
        if nv is not None and (stop is None or nv < stop):
            info.label("a test on a %s step was passed over" % ("rejected" if not qs[nv]["acc"] else "too early"))
            if nv + 1 not in other and n != nv + 1:
                info.nontrivial = True

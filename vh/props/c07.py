"""C07: linear subproblem solvers against dense solutions of the damped normal equations."""
import jax
import numpy as np
from jax import numpy as jnp

from .. import gen, models as M
from ..cmp import close
from ..env import X64, Violation, require
from ..gen import st

from jaxfg import sparse

N_QUICK = 90
BUDGET_QUICK = 45
N_THOROUGH = 2500
RULE = "three or more unknowns coupled by off-diagonal entries of A'A; smallest eigenvalue of A'A at least 0.02"


@st.composite
def _cases(draw, tier):
    n = draw(st.one_of(st.integers(1, 3), st.integers(4, 40 if tier != "quick" else 24), st.integers(8, 24)))
    return dict(
        n=n, extra=draw(st.integers(0, 2 * n)), s=draw(gen.SEEDS), dup=draw(st.integers(0, 4)) == 0,
        wide=draw(st.sampled_from([2, 3, 4, 1])),
        scale=draw(st.sampled_from([0, 0, 0, 1, 2])),
        lam=draw(st.sampled_from([0.0, 0.0, 1e-3, 0.05, 0.5, 4.0, 100.0])),
        it=draw(st.integers(0, 40)),
        tol=draw(st.sampled_from([1e-1, 1e-2, 1e-3, 1e-5, 1e-8])),
        eta=draw(st.sampled_from([0.5, 0.1, 0.01])),
        jit=draw(st.booleans()),
        rhs=draw(gen.SEEDS),
    )


def strategy(tier):
    return _cases(tier)


def make_matrix(case):
    """A: identity-like rows plus random sparse rows; unsorted entries."""
    n = case["n"]
    rs = np.random.RandomState(case["s"])
    rows, cols, vals = [], [], []
    for i in range(n):
        rows.append(i), cols.append(i), vals.append(1 + rs.randint(0, 9) / 8)
        for j in range(min(i, case["wide"] - 1)):
            rows.append(i), cols.append(rs.randint(0, i)), vals.append(rs.randint(-6, 7) / 8)
    for k in range(case["extra"]):
        for c in rs.choice(n, size=min(n, case["wide"]), replace=False):
            rows.append(n + k), cols.append(c), vals.append(rs.randint(-16, 17) / 8)
    rows, cols, vals = np.array(rows), np.array(cols), np.array(vals, float)
    if not case["dup"]:
        _, keep = np.unique(rows * 10000 + cols, return_index=True)
        rows, cols, vals = rows[keep], cols[keep], vals[keep]
    if case["scale"]:  # differently scaled columns: the two damping forms differ
        vals = vals * (2.0 ** (cols % 3 * case["scale"]))
    p = rs.permutation(n)  # columns in a scrambled order
    cols = p[cols]
    p = rs.permutation(len(rows))
    return rows[p], cols[p], vals[p], (n + case["extra"], n)


def check(case, info):
    rows, cols, vals, shape = make_matrix(case)
    n = shape[1]
    D = np.zeros(shape)
    np.add.at(D, (rows, cols), vals)
    G = D.T @ D
    w = np.linalg.eigvalsh(G)
    if w[0] < 0.02 or w[-1] / w[0] > 1e4:
        info.label("skipped: ill-conditioned")
        return
    b = M.nums(case["rhs"], n)
    if not np.any(b):
        b[0] = 1.0
    dup = len({(r, c) for r, c in zip(rows, cols)}) < len(rows)
    lam = case["lam"]
    A = sparse.SparseCooMatrix(
        values=jnp.asarray(vals, M.F),
        coords=sparse.SparseCooCoordinates(rows=jnp.asarray(rows), cols=jnp.asarray(cols)),
        shape=shape,
    )
    bj = jnp.asarray(b, M.F)
    eps = 1e-9 if X64 else 3e-4

    def run(solver):
        if case["jit"]:
            f = jax.jit(lambda A, b, l, i: solver.solve_subproblem(A, b, l, i))
            return np.asarray(f(A, bj, lam, case["it"]), float)
        return np.asarray(solver.solve_subproblem(A, bj, lam, case["it"]), float)

    info.inner += 3
    # CHOLMOD: plain damping, plus a regulariser no larger than about 1e-5.
    x = run(sparse.CholmodSolver())
    H = G + lam * np.eye(n)
    want = np.linalg.solve(H, b)
    hmin = np.linalg.eigvalsh(H)[0]
    close(
        "CHOLMOD solution", x, want,
        rtol=0, atol=(1.2e-5 / hmin + eps * max(1.0, w[-1] / hmin)) * max(1e-3, np.linalg.norm(want)),
    )
    Hd = G + lam * np.diag(np.diag(G))
    entries = np.zeros(n)
    np.add.at(entries, cols, vals**2)
    Hdup = G + lam * np.diag(entries)  # known finding: repeated coordinates squared one by one
    for nm, solver, tol in (
        ("conjugate gradient", sparse.ConjugateGradientSolver(tolerance=case["tol"]), case["tol"]),
        (
            "inexact-step conjugate gradient",
            sparse.InexactStepConjugateGradientSolver(inexact_step_eta=case["eta"]),
            case["eta"] / (case["it"] + 1),
        ),
    ):
        x = run(solver)
        require(x.shape == (n,), "%s: shape %s", nm, x.shape)
        if not np.all(np.isfinite(x)):
            raise Violation("%s: not finite" % nm)
        res = np.linalg.norm(Hd @ x - b)
        # n iterations of CG leave a rounding-level residual on these systems.
        floor = (1e-6 if X64 else 2e-2) * np.linalg.norm(b)
        lim = tol * np.linalg.norm(b) * 1.01 + floor
        if res > lim and dup and lam > 0 and np.linalg.norm(Hdup @ x - b) <= lim:
            info.known_finding("cg-damping-repeated-coordinates")
            continue
        if res > lim:
            raise Violation(
                "%s: residual %.3g of the damped normal equations above tolerance %.3g (%s)"
                % (nm, res, lim, dict(lam=lam, it=case["it"]))
            )
    if dup:
        info.label("repeated coordinates")
    info.label("damped" if lam else "undamped")
    info.label("jit" if case["jit"] else "eager")
    info.nontrivial = n >= 3 and bool(np.any(G - np.diag(np.diag(G))))

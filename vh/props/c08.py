"""C08: sequences of solves in one process against first-principles optima."""
import jax
import numpy as np
from jax import numpy as jnp

from .. import gen, models as M
from ..cmp import close
from ..env import X64, Violation, require
from ..gen import st

from jaxfg import core, geometry, noises, solvers, sparse

N_QUICK = 30
BUDGET_QUICK = 60
N_THOROUGH = 500
X32_WORKERS = 1
HANG_IS_VIOLATION = 1
RULE = "two or more solves of different connectivity in the history that share variables or a solver object"

SHAPES = [(1, 6), (2, 5), (2, 12), (3, 10), (6, 8), (6, 20), (6, 30), (4, 30)]


@st.composite
def _cases(draw, tier):
    big = tier != "quick"
    shapes = SHAPES + ([(6, 45), (8, 40)] if big else [])
    n_shapes = draw(st.integers(1, 2))
    pal = [draw(st.sampled_from(range(len(shapes)))) for _ in range(n_shapes)]
    steps = []
    for _ in range(draw(st.integers(2, 6 if big else 4))):
        steps.append([
            draw(st.sampled_from(["graph", "graph", "graph", "linear", "linear", "pose"])),
            draw(st.sampled_from(pal)),
            draw(gen.SEEDS),  # connectivity
            draw(st.sampled_from(["gn", "lm", "dl", "fixed"])),
            draw(st.sampled_from(["new", "shared", "shared"])),
            draw(st.sampled_from(["chol", "chol", "chol", "cg"])),
            draw(st.sampled_from([0.0, 0.0, 0.125, 2.0])),  # damping of a linear solve
        ])
        # Often the same system again, with other damping, another solver or a small change.
        steps[-1].append("")
        if len(steps) > 1 and draw(st.integers(0, 1)) == 0:
            steps[-1][0:3] = steps[-2][0:3]
            steps[-1][7] = draw(st.sampled_from(["", "", "end", "end", "start", "flip", "swap", "order", "values"]))
    return dict(steps=steps, deg=draw(st.sampled_from([1.0, 1.5, 3.0])))


def strategy(tier):
    return _cases(tier)


def edges(seed, n, m):
    """A connected random pattern with exactly m edges (tree plus chords)."""
    rs = np.random.RandomState(seed)
    p = rs.permutation(n)
    out = []
    for i in range(1, n):
        j = i - 1 if seed % 2 else rs.randint(0, i)
        out.append((p[j], p[i]))
    while len(out) < m:
        a, b = rs.randint(0, n, size=2)
        if a != b:
            out.append((a, b))
    return out


def changed(es, mod, pos, n):
    """The same edges except for a small change."""
    es = [(int(a), int(b)) for a, b in es]
    i, j = pos % len(es), (pos * 5 + 1) % len(es)
    a, b = es[i]
    other = [x for x in range(n) if x not in (a, b)]
    if mod == "end" and other:
        es[i] = (a, other[pos % len(other)])
    if mod == "start" and other:
        es[i] = (other[pos % len(other)], b)
    if mod == "flip":
        es[i] = (b, a)
    if mod == "swap":
        es[i], es[j] = es[j], es[i]
    return es


def make_solver(cache, kind, share, lin):
    key = (kind, lin)
    if share == "shared" and key in cache:
        return cache[key]
    ls = sparse.CholmodSolver() if lin == "chol" else sparse.ConjugateGradientSolver(
        tolerance=1e-12 if X64 else 1e-6)
    if kind == "fixed":
        s = solvers.FixedIterationGaussNewtonSolver(verbose=False, linear_solver=ls, iterations=3, unroll=False)
    else:
        cls = dict(gn=solvers.GaussNewtonSolver, lm=solvers.LevenbergMarquardtSolver, dl=solvers.DoglegSolver)[kind]
        kw = dict(radius_initial=1e4) if kind == "dl" else {}
        s = cls(verbose=False, linear_solver=ls, max_iterations=12, cost_tolerance=0.0,
                gradient_tolerance=0.0, parameter_tolerance=1e-9, **kw)
    cache[key] = s
    return s


def check(case, info):
    shapes = SHAPES + [(6, 45), (8, 40)]
    cache = {}
    lin_solver = sparse.CholmodSolver()
    cg_solver = sparse.ConjugateGradientSolver(tolerance=1e-12 if X64 else 1e-6)
    prev = set()
    for k, (what, sh, seed, kind, share, lin, lam, mod) in enumerate(case["steps"]):
        d, n = shapes[sh]
        m = int((n - 1) + case["deg"] * n)
        es = changed(edges(seed, n, m), mod, seed + 3 * k, n)
        rs = np.random.RandomState(seed + (2 if mod == "values" else 1))
        if mod:
            info.label("the previous system with a change: " + mod)
        info.inner += 1
        tag = "solve %d (%s, %s, %s, %d variables of dim %d)" % (k, what, kind, lin, n, d)
        if what == "pose":
            n = min(n, 12)
            pose_solve(tag, cache, kind, share, lin, n, seed, rs, info)
            continue
        # Linear graph: x_j - C x_i = b on edges, a prior on every variable.
        mats, rows = [], []
        for a, b in es:
            C = 0.5 * np.eye(d) + rs.randint(-2, 3, size=(d, d)) / 8.0
            mats.append((C, rs.randint(-16, 17, size=d) / 8.0))
        pri = rs.randint(-16, 17, size=(n, d)) / 8.0
        N = n * d
        A = np.zeros((len(es) * d + N, N))
        y = np.zeros(A.shape[0])
        for e, ((a, b), (C, c)) in enumerate(zip(es, mats)):
            A[e * d:(e + 1) * d, a * d:(a + 1) * d] -= C
            A[e * d:(e + 1) * d, b * d:(b + 1) * d] += np.eye(d)
            y[e * d:(e + 1) * d] = c
        A[len(es) * d:] = 0.5 * np.eye(N)
        y[len(es) * d:] = 0.5 * pri.reshape(-1)
        want = np.linalg.lstsq(A, y, rcond=None)[0]
        pattern = (sh, tuple(sorted((min(a, b), max(a, b)) for a, b in es)))
        if prev and pattern not in prev:
            info.nontrivial = True
            if any(q[0] == sh for q in prev):
                info.label("same shapes, other connectivity")
        if pattern in prev:
            info.label("the same system again")
        prev.add(pattern)
        if n * d >= 100:
            info.label("supernodal size")
        tol = dict(rtol=2e-4 if X64 else 5e-3)
        if what == "linear":
            r_, c_ = np.nonzero(A)
            p = rs.permutation(len(r_))
            r_, c_ = r_[p], c_[p]
            S = sparse.SparseCooMatrix(
                values=jnp.asarray(A[r_, c_], M.F),
                coords=sparse.SparseCooCoordinates(rows=jnp.asarray(r_), cols=jnp.asarray(c_)),
                shape=A.shape,
            )
            G = A.T @ A
            for m_, damp in enumerate((lam, 0.75 * lam + 0.5, 0.0)):
                rhs = A.T @ (y + k + m_)  # another right-hand side every time
                if lin == "chol":
                    got = lin_solver.solve_subproblem(S, jnp.asarray(rhs, M.F), damp, k)
                    want = np.linalg.solve(G + damp * np.eye(N), rhs)
                else:
                    got = cg_solver.solve_subproblem(S, jnp.asarray(rhs, M.F), damp, k)
                    want = np.linalg.solve(G + damp * np.diag(np.diag(G)), rhs)
                close(tag + " damping %g" % damp, got, want, **tol)
            info.label("linear solve")
            continue
        vs = [M.pool_var("r%d" % d, i) for i in range(n)]
        I = np.eye(d)
        one = np.ones(d, M.F)
        fs = [
            M.LinearFactor(
                variables=(vs[a], vs[b]), noise_model=noises.DiagonalGaussian(one),
                mats=(np.asarray(-C, M.F), np.asarray(I, M.F)), bias=np.asarray(c, M.F))
            for (a, b), (C, c) in zip(es, mats)
        ] + [
            M.LinearFactor(
                variables=(vs[i],), noise_model=noises.DiagonalGaussian(0.5 * one),
                mats=(np.asarray(I, M.F),), bias=np.asarray(pri[i], M.F))
            for i in range(n)
        ]
        if seed % 3 == 0:
            fs = fs[::-1]
        if mod == "order":
            fs = [fs[i] for i in M.permutation(seed + k, len(fs))]
        g = core.StackedFactorGraph.make(fs)
        a0 = core.VariableAssignments.make_from_defaults(vs)
        out = g.solve(a0, solver=make_solver(cache, kind, share, lin))
        got = np.concatenate([np.asarray(out.get_value(v), float) for v in vs])
        close(tag, got, want, **tol)
        info.label("graph solve " + kind)


def pose_solve(tag, cache, kind, share, lin, n, seed, rs, info):
    """A consistent SE(2) pose graph: the true poses are the optimum, with zero cost."""
    import jaxlie

    from .. import lie

    es = edges(seed, n, n + 3)
    true = [M.KINDS["se2"].gen(seed + 3 * i) for i in range(n)]
    vs = [M.pool_var("se2", i) for i in range(n)]
    one = np.ones(3, M.F)
    fs = [geometry.PriorFactor.make(vs[0], M.KINDS["se2"].make(true[0]), noises.DiagonalGaussian(one))]
    for a, b in es:
        T = lie.inv("se2", lie.to_matrix("se2", true[a])) @ lie.to_matrix("se2", true[b])
        fs.append(geometry.BetweenFactor.make(
            vs[a], vs[b], M.KINDS["se2"].make(lie.from_matrix("se2", T)), noises.DiagonalGaussian(one)))
    g = core.StackedFactorGraph.make(fs)
    start = [M.KINDS["se2"].retract(t, rs.randint(-3, 4, size=3) / 40.0) for t in true]
    a0 = core.VariableAssignments.make_from_dict({v: M.KINDS["se2"].make(s) for v, s in zip(vs, start)})
    out = g.solve(a0, solver=make_solver(cache, kind, share, lin))
    for i, v in enumerate(vs):
        close("%s: pose %d" % (tag, i), M.flat_of("se2", out.get_value(v)), true[i], rtol=2e-3 if X64 else 2e-2)
    info.label("pose graph solve " + kind)

"""C18: jit, vmap and grad of graph computations against plain, unbatched calls."""
import jax
import numpy as np
from jax import numpy as jnp

from .. import gen, models as M, solvercase, steps
from ..cmp import close
from ..env import X64, Violation, require
from ..gen import st

from jaxfg import core, solvers

N_QUICK = 48
BUDGET_QUICK = 75
N_THOROUGH = 800
X32_WORKERS = 0
HANG_IS_VIOLATION = 1
RULE = "batch elements with different results, or a derivative that is not zero"
MODES = ["jit", "vmap-a", "vmap-g", "solve-a", "solve-g", "grad", "grad", "grad-params", "grad-solve", "grad-solve"]


@st.composite
def _cases(draw, tier):
    mode = draw(st.sampled_from(MODES))
    if "solve" in mode:
        g = draw(solvercase.problems(tier, noises=("d", "f", "hd"), styles=("n", "n", "o")))
        g["solver"] = draw(st.sampled_from(["gn", "lm", "dl", "fixed"]))
    else:
        types = [t for t in M.FACTOR_TYPES if t != "sp" or mode in ("jit", "vmap-a")]
        g = draw(gen.graphs(types=types, max_factors=6, max_vars=5, max_tpl=3, max_kinds=2))
    g["mode"] = mode
    g["B"] = draw(st.integers(1, 4))
    g["xs"] = [draw(gen.SEEDS) for _ in range(g["B"])]
    g["gs"] = [draw(st.integers(0, 50)) for _ in range(g["B"])]
    g["style"] = draw(st.sampled_from("nnnz"))
    g["d"] = draw(gen.SEEDS)
    g["iters"] = draw(st.integers(1, 3))
    if mode.startswith("grad") and draw(st.integers(0, 3)) == 0:
        # Residuals that are exactly zero (and robust noise models seeing them).
        g["style"] = "z"
        for f in g["fs"]:
            f["y"] = "z"
    g["fwd"] = draw(st.integers(0, 3)) == 0
    g["linear"] = draw(st.sampled_from(["cg", "cg", "ix"]))
    return g


def strategy(tier):
    return _cases(tier)


def tmap(f, *t):
    return jax.tree_util.tree_map(f, *t)


def stack(trees):
    return tmap(lambda *xs: np.stack([np.asarray(x) for x in xs]), *trees)


def item(tree, i):
    return tmap(lambda x: np.asarray(x)[i], tree)


def evaluate(graph, a):
    """Everything evaluation returns, as one tree."""
    cost, r = graph.compute_cost(a)
    A = graph.compute_whitened_residual_jacobian(a, r)
    lay = graph.local_storage_layout
    delta = core.VariableAssignments(storage=0.1 * jnp.cos(jnp.arange(lay.dim)), storage_layout=lay)
    v = jnp.sin(1.0 + jnp.arange(lay.dim))
    return dict(cost=cost, r=r, r2=graph.compute_whitened_residual_vector(a), values=A.values, Av=A @ v,
                ATr=A.T @ r, moved=a.manifold_retract(delta).storage)


def same(what, got, want, rtol):
    for k in want:
        w = np.asarray(want[k], float)
        g = np.asarray(got[k], float)
        require(g.shape == w.shape, "%s: %s has shape %s, expected %s", what, k, g.shape, w.shape)
        s = max(1.0, float(np.max(np.abs(w))) if w.size else 1.0)
        close("%s: %s" % (what, k), g, w, rtol=rtol, scale=s)


def graph_for(case, shift):
    c = dict(case, fs=[dict(f, s=f["s"] + 2 * shift) for f in case["fs"]])
    b = M.build(c)
    return b, core.StackedFactorGraph.make(b.factors)


def make_solver(case):
    lin = steps.linear_solver(case["linear"], 1e-12)
    if case["solver"] == "fixed":
        return solvers.FixedIterationGaussNewtonSolver(verbose=False, linear_solver=lin, unroll=bool(case["d"] % 2), iterations=case["iters"])
    cls = dict(gn=solvers.GaussNewtonSolver, lm=solvers.LevenbergMarquardtSolver, dl=solvers.DoglegSolver)[case["solver"]]
    return cls(verbose=False, linear_solver=lin, max_iterations=3 + 4 * case["iters"])


def float_leaves(stacks):
    leaves, tree = jax.tree_util.tree_flatten([s.factor for s in stacks])
    return leaves, tree


def with_params(graph, leaves, tree):
    import jax_dataclasses as jdc

    facs = jax.tree_util.tree_unflatten(tree, leaves)
    return jdc.replace(graph, factor_stacks=[jdc.replace(s, factor=f) for s, f in zip(graph.factor_stacks, facs)])


def derivative(info, what, f, fwd):
    """Autodiff derivative of a scalar function of a scalar at 0, against differences."""
    fj = jax.jit(f)
    got = float(jax.jit(jax.jacfwd(f) if fwd else jax.grad(f))(0.0))
    hs = [1.6e-3, 8e-4, 4e-4, 2e-4]
    v = {t: float(fj(t)) for h in hs for t in (h, -h)}
    f0 = float(fj(0.0))
    if not all(np.isfinite(x) for x in v.values()) or not np.isfinite(f0):
        info.label("skipped: not finite")
        return
    d = [(v[h] - v[-h]) / (2 * h) for h in hs]
    rich = [(4 * y - x) / 3 for x, y in zip(d, d[1:])]
    one = [(v[h] - f0) / h for h in (1e-4 * 2, -1e-4 * 2)]
    scale = max(1.0, abs(rich[1]), abs(f0))
    # A kink (Huber), strong curvature, or a solution that is only accurate to the linear solver's tolerance.
    err = max(rich) - min(rich)
    if err > 1e-5 * scale or abs(one[0] - one[1]) > 2e-2 * scale:
        info.label("skipped: not smooth here")
        return
    d2 = rich[1]
    info.inner += 1
    tol = 1e-6 * scale + 5 * err
    if not abs(got - d2) <= tol:
        raise Violation("%s: derivative %.9g, differences give %.9g (allowed error %.3g)" % (what, got, d2, tol))
    info.nontrivial |= abs(d2) > 1e-3


def check(case, info):
    mode = case["mode"]
    info.label("mode " + mode)
    used = M.used_vars(case)
    b, graph = graph_for(case, 0)
    order = None
    flats = [M.flats_for(case, s, case["style"] if i else "n") for i, s in enumerate(case["xs"])]
    gen.graph_labels(case, info)
    assigns = [M.assignments_for(b, f, order, used) for f in flats]

    def usable(refs, f, lim=2.7):
        return M.residual_angle_ok(refs, f, lim)

    if mode in ("jit", "vmap-a", "vmap-g"):
        if mode == "vmap-g":
            pairs = [graph_for(case, s) for s in case["gs"]]
        else:
            pairs = [(b, graph)] * len(assigns)
        keep = [i for i, (p, f) in enumerate(zip(pairs, flats)) if usable(p[0].refs, f)]
        if not keep:
            info.label("skipped: rotation near pi")
            return
        want = [evaluate(pairs[i][1], assigns[i]) for i in keep]
        info.inner += len(keep)
        rtol = 1e-9
        if mode == "jit":
            # Graph as an argument, graph as a constant, and no compilation at all.
            got = jax.jit(evaluate)(graph, assigns[keep[0]])
            same("jit over graph and assignments", got, want[0], rtol)
            got = jax.jit(lambda a: evaluate(graph, a))(assigns[keep[0]])
            same("jit over assignments", got, want[0], rtol)
            if len(case["fs"]) <= 3:
                with jax.disable_jit():
                    got = evaluate(graph, assigns[keep[0]])
                same("without jit", got, want[0], rtol)
                info.label("without jit")
            info.nontrivial = bool(np.max(np.abs(want[0]["r"])) > 0)
        else:
            batch = stack([assigns[i] for i in keep])
            if mode == "vmap-a":
                got = jax.vmap(lambda a: evaluate(graph, a))(batch)
            else:
                got = jax.vmap(evaluate)(stack([pairs[i][1] for i in keep]), batch)
            for k in range(len(keep)):
                same("%s element %d of %d" % (mode, k, len(keep)), item(got, k), want[k], rtol)
            info.nontrivial = len(keep) > 1 and len({float(w["cost"]) for w in want}) > 1
        return

    if mode in ("solve-a", "solve-g"):
        pairs = [graph_for(case, s) for s in case["gs"]] if mode == "solve-g" else [(b, graph)] * len(assigns)
        s = make_solver(case)
        keep = [i for i, (p, f) in enumerate(zip(pairs, flats)) if usable(p[0].refs, f, 2.4)]
        if not keep:
            info.label("skipped: rotation near pi")
            return
        single = [pairs[i][1].solve(assigns[i], solver=s) for i in keep]
        batch = stack([assigns[i] for i in keep])
        if mode == "solve-a":
            got = jax.vmap(lambda a: graph.solve(a, solver=s))(batch)
        else:
            got = jax.vmap(lambda g, a: g.solve(a, solver=s))(stack([pairs[i][1] for i in keep]), batch)
        costs = set()
        for k, i in enumerate(keep):
            prob = steps.Problem(case, pairs[i][0], pairs[i][1], used)
            y = prob.flats(single[k])
            z = prob.flats(item(got, k))
            if not prob.finite(y) or prob.norm(y) > 1e3:
                info.label("element skipped: diverged")
                continue
            size = 1 + max(float(np.max(np.abs(y[j]))) for j in used)
            sp = steps.spread(prob, lambda x: pairs[i][1].solve(x, solver=s), flats[i], order, y)
            if sp is None or sp > 1e-5 * size:
                info.label("element skipped: unstable")
                continue
            if not M.residual_angle_ok(prob.b.refs, y, 2.9):
                continue
            tol = 100 * sp + 1e-7 * size
            d = prob.distance(y, z) if prob.finite(z) else np.inf
            info.inner += 1
            if d > tol:
                raise Violation("vmapped %s solve, element %d of %d: %.3g away from the unbatched solution (allowed %.3g)"
                                % (case["solver"], k, len(keep), d, tol))
            costs.add(round(float(prob.norm(y)), 5))
        info.label("solver " + case["solver"])
        info.nontrivial = len(costs) > 1
        return

    f0 = flats[0] if case["style"] == "n" else M.flats_for(case, case["xs"][0], case["style"])
    a0 = M.assignments_for(b, f0, order, used)
    if not usable(b.refs, f0, 2.4):
        info.label("skipped: rotation near pi")
        return
    a0 = a0.update_storage_layout(graph.storage_layout)
    if mode == "grad":
        d = jnp.asarray(M.nums(case["d"], graph.storage_layout.dim))

        def f(t):
            return graph.compute_cost(core.VariableAssignments(storage=a0.storage + t * d, storage_layout=a0.storage_layout))[0]

        derivative(info, "cost along an assignment direction", f, case["fwd"])
        return
    leaves, tree = float_leaves(graph.factor_stacks)
    dirs = [M.nums(case["d"] + i, int(np.size(x))).reshape(np.shape(x)) for i, x in enumerate(leaves)]

    def moved(t):
        return with_params(graph, [x + t * 0.25 * d for x, d in zip(leaves, dirs)], tree)

    if mode == "grad-params":
        derivative(info, "cost along a factor parameter direction", lambda t: moved(t).compute_cost(a0)[0], case["fwd"])
        return
    # Derivative of a fixed-iteration solve.
    unroll = not case["fwd"] or bool(case["d"] % 2)
    s = solvers.FixedIterationGaussNewtonSolver(
        verbose=False, linear_solver=steps.linear_solver("cg", 1e-14), unroll=unroll, iterations=case["iters"])
    # The iterates have to stay where the problem is well-conditioned.
    y = a0
    for _ in range(case["iters"] + 1):
        cost, r = graph.compute_cost(y)
        A = steps.dense(graph.compute_whitened_residual_jacobian(y, r))
        w = np.linalg.eigvalsh(A.T @ A)
        if w[0] < 1e-2 or w[-1] / w[0] > 1e4 or not float(cost) < 1e5:
            info.label("skipped: ill-conditioned")
            return
        y = graph.solve(y, solver=solvers.FixedIterationGaussNewtonSolver(
            verbose=False, linear_solver=steps.linear_solver("cg", 1e-14), iterations=1))
    c = jnp.asarray(M.nums(case["d"] + 77, graph.storage_layout.dim))
    derivative(info, "fixed-iteration solution along a factor parameter direction (unroll=%s)" % unroll,
               lambda t: jnp.sum(c * moved(t).solve(a0, solver=s).storage), case["fwd"])

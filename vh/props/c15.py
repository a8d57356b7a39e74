"""C15: Huber noise against the Huber loss; gradients and minimisers."""
import numpy as np
import scipy.optimize
from jax import numpy as jnp

from .. import gen, models as M, steps
from ..cmp import close
from ..env import X64, Violation, require
from ..gen import st

from jaxfg import core, noises, solvers, sparse

N_QUICK = 90
BUDGET_QUICK = 50
N_THOROUGH = 1500
X32_WORKERS = 2
HANG_IS_VIOLATION = 1
RULE = "at least one Huber factor beyond its threshold and at least one factor (Huber or plain) within"


@st.composite
def _cases(draw, tier):
    big = tier != "quick"
    curved = draw(st.integers(0, 2)) == 0  # only linear graphs are solved
    g = draw(gen.graphs(
        max_kinds=3, types=[t for t in M.FACTOR_TYPES if t not in ("pri", "bet", "sp")], noises=("hd", "hf", "hc", "d"),
        max_vars=4, max_factors=8, styles=("n", "n", "z", "b"), grow=10, many=(8, 20),
    ) if curved else gen.graphs(
        kinds=M.VECTOR_KINDS[:6] + ["sc", "pt"], types=["lin", "lin", "ln"], noises=("hd", "hf", "hc", "d"), max_kinds=2,
        max_vars=6 if big else 4, max_factors=12 if big else 8, max_arity=2, anchors=True,
        styles=("n", "n", "z", "b"), min_tpl=1, grow=10, many=(8, 20),
    ))
    g["x0"] = [draw(gen.SEEDS), draw(st.sampled_from("nnbz"))]
    g["order"] = draw(gen.SEEDS)
    g["solve"] = not curved and draw(st.booleans())
    g["lin"] = draw(st.sampled_from(["chol", "cg"]))
    g["dk"] = draw(st.sampled_from([0.05, 0.5, 1.0, 3.0, 1e4]))
    return g


def strategy(tier):
    return _cases(tier)


def huber_loss(n, d):
    """Half the Huber loss of norm n: n^2/2 within, d*(n - d/2) beyond."""
    return 0.5 * n * n if n < d else d * (n - 0.5 * d)


def check(case, info):
    b = M.build(case)
    used = M.used_vars(case)
    graph = core.StackedFactorGraph.make(b.factors)
    prob = steps.Problem(case, b, graph, used)
    flats = M.flats_for(case, *case["x0"])
    order = M.permutation(case["order"], len(b.vars))
    a = prob.assignments(flats, order)
    tol = 1e-8 if X64 else 2e-3
    # (1) The model on its own.
    beyond = within = 0
    for f, ref in list(zip(b.factors, b.refs))[:6]:
        raw = ref.raw([flats[i] for i in ref.v])
        inner = f.noise_model.wrapped if ref.delta is not None else f.noise_model
        scale_d = case["dk"]
        z = ref.W @ raw
        n = np.linalg.norm(z)
        d = scale_d
        h = noises.HuberWrapper(wrapped=inner, delta=d)
        require(h.get_residual_dim() == ref.rdim, "residual dim of the wrapper")
        got = np.asarray(h.whiten_residual_vector(jnp.asarray(raw, M.F)), float)
        if abs(n - d) > 1e-3 * d:
            want = z if n < d else z * np.sqrt(d / n)
            close("Huber residual (norm %.4g, threshold %.4g)" % (n, d), got, want, rtol=tol, scale=max(1.0, np.max(np.abs(z))))
            info.inner += 1
    # (2) Linearised gradient in the graph = gradient of the sum of half losses.
    cost, r, A = prob.linearise(a)
    lay = graph.local_storage_layout
    grad = np.zeros(lay.dim)
    near = False
    h = 1e-4
    slack = 0.0  # error of the difference quotients
    for ref in b.refs:
        n0 = np.linalg.norm(ref.W @ ref.raw([flats[i] for i in ref.v]))
        if ref.delta is not None:
            near = near or abs(n0 - ref.delta) < 5e-3 * max(1.0, ref.delta)
            if n0 > ref.delta:
                beyond += 1
            else:
                within += 1
        else:
            within += 1
        z0 = ref.W @ ref.raw([flats[i] for i in ref.v])
        wgt = 1.0 if ref.delta is None or n0 < ref.delta else ref.delta / n0
        for i in dict.fromkeys(ref.v):
            k = M.KINDS[b.kinds[i]]
            s = lay.index_from_variable[b.vars[i]]
            for j in range(k.local):
                e = np.zeros(k.local)
                quot = []
                for step in (h, 2 * h):
                    e[j] = step
                    up = [k.retract(flats[q], e) if q == i else flats[q] for q in ref.v]
                    dn = [k.retract(flats[q], -e) if q == i else flats[q] for q in ref.v]
                    quot.append(ref.W @ (ref.raw(up) - ref.raw(dn)) / (2 * step))
                dz = (4 * quot[0] - quot[1]) / 3
                slack += 0.02 * wgt * float(np.abs(z0) @ np.abs(quot[0] - quot[1]))
                grad[s + j] += wgt * (z0 @ dz)
    if not near:
        sc = max(1.0, float(np.max(np.abs(A)) * np.max(np.abs(r)) * len(r)))
        close("linearised gradient", A.T @ r, grad, rtol=1e-7 if X64 else 2e-3, atol=slack, scale=sc)
        info.inner += 1
    if beyond:
        info.label("beyond threshold")
    if beyond and within:
        info.label("both sides of the threshold")
        info.nontrivial = True
    gen.graph_labels(case, info)
    # (3) Solving reaches the minimiser of the sum of half losses (a convex problem).
    if not (case["solve"] and X64):
        return
    off, n = {}, 0
    for i in used:
        off[i] = n
        n += M.KINDS[b.kinds[i]].dim
    zero = [np.zeros(M.KINDS[k].dim) for k in b.kinds]
    mats = []
    for ref in b.refs:
        r0 = ref.W @ ref.raw([zero[i] for i in ref.v])
        Am = np.zeros((len(r0), n))
        for i in dict.fromkeys(ref.v):
            for d_ in range(M.KINDS[b.kinds[i]].dim):
                zz = list(zero)
                zz[i] = np.eye(M.KINDS[b.kinds[i]].dim)[d_]
                Am[:, off[i] + d_] = ref.W @ ref.raw([zz[j] for j in ref.v]) - r0
        mats.append((Am, r0, ref.delta))
    # Plain factors alone must determine the variables, so that reweighting converges well.
    plain = [m for m in mats if m[2] is None]
    if not plain:
        return
    P = np.concatenate([m[0] for m in plain])
    sv = np.linalg.svd(P, compute_uv=False)
    full = np.linalg.svd(np.concatenate([m[0] for m in mats]), compute_uv=False)
    if P.shape[0] < n or sv[-1] ** 2 < 0.1 or (full[0] / sv[-1]) ** 2 > 2e3:
        info.label("skipped solve: weak plain factors")
        return

    def total(x):
        f, g = 0.0, np.zeros(n)
        for Am, r0, d in mats:
            z = Am @ x + r0
            nz = np.linalg.norm(z)
            if d is None or nz < d:
                f += 0.5 * nz * nz
                g += Am.T @ z
            else:
                f += d * (nz - 0.5 * d)
                g += d / nz * (Am.T @ z)
        return f, g

    best = scipy.optimize.minimize(total, np.zeros(n), jac=True, method="BFGS", options=dict(gtol=1e-10, maxiter=3000))
    xs = solvers.GaussNewtonSolver(
        verbose=False, linear_solver=steps.linear_solver(case["lin"]), max_iterations=400,
        cost_tolerance=0.0, gradient_tolerance=0.0, parameter_tolerance=1e-13)
    out = prob.flats(graph.solve(a, solver=xs))
    if not prob.finite(out):
        raise Violation("Huber solve is not finite")
    x = np.concatenate([out[i] for i in used])
    f, g = total(x)
    fb = best.fun
    info.inner += 1
    info.label("solved")
    lim = 1e-5 * max(1.0, abs(fb))
    if f > fb + lim:
        raise Violation("Huber solve ended at loss %.9g, the minimum is %.9g" % (f, fb))

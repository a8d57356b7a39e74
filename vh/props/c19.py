"""C19: Lie-group variables and factors against matrix exponentials and logarithms."""
import jax
import numpy as np

from .. import gen, lie, models as M
from ..cmp import close
from ..env import X64, require
from ..gen import st

from jaxfg import geometry, noises

N_QUICK = 160
BUDGET_QUICK = 30
N_THOROUGH = 3000
X32_WORKERS = 1
RULE = "both residuals nonzero and rotations neither zero nor equal (styles cover zero, tiny and large motions)"
TOL = 1e-7 if X64 else 1e-3


@st.composite
def _cases(draw, tier):
    y = st.sampled_from("nnnntzb")
    return dict(
        g=draw(st.sampled_from(M.LIE_KINDS)), a=[draw(gen.SEEDS), draw(y)], b=[draw(gen.SEEDS), draw(y)],
        mu=[draw(gen.SEEDS), draw(y)], L=[draw(gen.SEEDS), draw(st.sampled_from("nnt"))],
        d=[draw(gen.SEEDS), draw(st.sampled_from("nnt"))], tiny=draw(st.sampled_from([0, 0, 1e-4, 1e-7, 1e-9, 1e-11])),
    )


def strategy(tier):
    return _cases(tier)


_VARS = {}


def check(case, info):
    g = case["g"]
    K = M.KINDS[g]
    cls = K.cls
    f32 = lambda p: np.asarray(np.asarray(p, M.F), float)
    pa, pb, pm, pL = (f32(K.gen(*case[k])) for k in ("a", "b", "mu", "L"))
    Ma, Mb, Mm, ML = (lie.to_matrix(g, p) for p in (pa, pb, pm, pL))
    va, vb = M.pool_var(g, 0), M.pool_var(g, 1)
    one = noises.DiagonalGaussian(np.ones(K.local, M.F))
    info.label("group " + g)
    require(cls.get_local_parameter_dim() == lie.TANGENT[g], "local dimension")
    require(cls.get_parameter_dim() == lie.PARAMS[g], "parameter dimension")
    close("default value", M.canon(g, M.flat_of(g, cls.get_default_value())), lie.from_matrix(g, np.eye(len(Ma))), rtol=TOL)

    # As in scripts: factors evaluated on values, jitted once per group.
    key = g
    if key not in _VARS:
        _VARS[key] = (
            jax.jit(lambda f, T: f.compute_residual_vector(f.build_variable_value_tuple((T,)))),
            jax.jit(lambda f, A, B: f.compute_residual_vector(f.build_variable_value_tuple((A, B)))),
            jax.jit(lambda T, d: cls.manifold_retract(T, d)),
            jax.jit(lambda T: cls.manifold_retract_jacobian(T)),
        )
    fprior, fbetween, fretract, fjac = _VARS[key]

    def prior(pT, pmu):
        return np.asarray(fprior(geometry.PriorFactor.make(va, K.make(pmu), one), K.make(pT)), float)

    def between(p1, p2, pmu):
        return np.asarray(fbetween(geometry.BetweenFactor.make(va, vb, K.make(pmu), one), K.make(p1), K.make(p2)), float)

    def sized(m):
        return max(1.0, float(np.max(np.abs(m))))

    nz = 0
    # Prior.
    E = lie.inv(g, Ma) @ Mm
    sc = sized(Ma) * sized(Mm)
    if lie.angle(g, E) < 2.9:
        info.inner += 1
        want = lie.log(g, E)
        close("prior residual", prior(pa, pm), want, rtol=TOL, scale=sc)
        nz += bool(np.linalg.norm(want) > 1e-3)
        pLa, pLm = (lie.from_matrix(g, ML @ X) for X in (Ma, Mm))
        close("prior residual after a common left transform", prior(pLa, pLm), want, rtol=5 * TOL, scale=sc * sized(ML))
    close("prior residual at its mean", prior(pm, pm), np.zeros(K.local), rtol=TOL, scale=sized(Mm) ** 2)
    # Between.
    Em = lie.inv(g, lie.inv(g, Ma) @ Mb) @ Mm
    sc = sized(Ma) * sized(Mb) * sized(Mm)
    if lie.angle(g, Em) < 2.9:
        info.inner += 1
        want = lie.log(g, Em)
        close("between residual", between(pa, pb, pm), want, rtol=TOL, scale=sc)
        nz += bool(np.linalg.norm(want) > 1e-3)
        pLa, pLb = (lie.from_matrix(g, ML @ X) for X in (Ma, Mb))
        close("between residual after a common left transform", between(pLa, pLb, pm), want, rtol=5 * TOL, scale=sc * sized(ML))
    pc = lie.from_matrix(g, Ma @ Mm)
    close("between residual of a consistent pair", between(pa, pc, pm), np.zeros(K.local), rtol=TOL, scale=sized(Ma) * sized(Mm) ** 2)
    # Small deviations are seen at their size (no dead zone around the constraint).
    d = M.nums(case["d"][0], K.local, "n")
    if case["tiny"] and X64:
        t = d * case["tiny"]
        moved = lie.from_matrix(g, Mm @ lie.exp(g, t))
        if sized(Mm) < 10:
            close("prior residual of a tiny deviation", prior(moved, pm), -t, rtol=1e-5, scale=max(np.max(np.abs(t)), 1e-9), atol=1e-13)
            info.label("tiny deviation")
    # Retraction and its Jacobian.
    d = M.nums(case["d"][0] + 1, K.local, case["d"][1]) * (0.75 if K.local in (3, 6) else 1.0)
    want = lie.from_matrix(g, Ma @ lie.exp(g, d))
    got = fretract(K.make(pa), np.asarray(d, M.F))
    close("retraction", M.canon(g, M.flat_of(g, got)), M.canon(g, want), rtol=TOL, scale=sized(Ma) * 4)
    J = fjac(K.make(pa))
    require(isinstance(J, tuple) or isinstance(J, list), "retraction Jacobian is not a tuple")
    J = np.concatenate([np.asarray(x, float).reshape(-1, K.local) for x in J], axis=0)
    h = 1e-4
    fd = []
    for j in range(K.local):
        e = np.zeros(K.local)
        e[j] = h
        up, dn = (lie.from_matrix(g, Ma @ lie.exp(g, s * e)) for s in (1, -1))
        # Same quaternion sign as the value itself.
        if g in ("so3", "se3"):
            for q in (up, dn):
                if q[:4] @ pa[:4] < 0:
                    q[:4] = -q[:4]
        fd.append((up - dn) / (2 * h))
    close("retraction Jacobian", J, np.stack(fd, axis=1), rtol=1e-6 if X64 else 1e-3, scale=sized(Ma))
    info.nontrivial = nz == 2

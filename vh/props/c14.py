"""C14: Gaussian noise models against inv(covariance)."""
import jax
import numpy as np
from jax import numpy as jnp

from .. import gen, models as M
from ..cmp import close
from ..env import X64, require
from ..gen import st

from jaxfg import noises

N_QUICK = 240
BUDGET_QUICK = 30
N_THOROUGH = 5000
RULE = "dimension two or more and a covariance that is not a multiple of the identity"


@st.composite
def _cases(draw, tier):
    n = draw(st.integers(1, 9 if tier != "quick" else 6))
    return dict(
        n=n, s=draw(gen.SEEDS), diag=draw(st.lists(st.integers(1, 400), min_size=n, max_size=n)),
        pw=draw(st.integers(-4, 4) if draw(st.booleans()) else st.integers(-10, 10)), cols=draw(st.integers(1, 4)), r=draw(gen.SEEDS),
        form=draw(st.sampled_from(["np", "jnp", "list"])), jit=draw(st.integers(0, 4)) == 0,
    )


def strategy(tier):
    return _cases(tier)


def check(case, info):
    n = case["n"]
    sc = 10.0 ** (case["pw"] if X64 else max(-4, min(4, case["pw"])))
    B = np.tril(M.nums(case["s"], n * n).reshape(n, n)) * 0.5
    B[np.arange(n), np.arange(n)] = 0.5 + np.abs(M.nums(case["s"] + 1, n))
    cov = np.asarray(B @ B.T * sc, M.F).astype(float)
    if np.linalg.cond(cov) > (1e6 if X64 else 1e3):
        info.label("skipped: ill-conditioned")
        return
    tol = 1e-8 if X64 else 3e-3
    r = M.nums(case["r"], n)
    J = M.nums(case["r"] + 1, n * case["cols"]).reshape(n, case["cols"])
    conv = {"np": lambda x: np.asarray(x, M.F), "jnp": lambda x: jnp.asarray(x, M.F), "list": lambda x: np.asarray(x, M.F)}[case["form"]]

    def whiten(model, r, J):
        f = lambda m, r, J: (m.whiten_residual_vector(r), m.whiten_jacobian(J, residual_vector=r))
        if case["jit"]:
            f = jax.jit(f)
        return tuple(np.asarray(x, float) for x in f(model, jnp.asarray(r, M.F), jnp.asarray(J, M.F)))

    def laws(name, model, cov, W=None):
        require(model.get_residual_dim() == n, "%s: residual dim %s, expected %d", name, model.get_residual_dim(), n)
        wr, wJ = whiten(model, r, J)
        require(wr.shape == (n,), "%s: whitened residual shape %s", name, wr.shape)
        require(wJ.shape == J.shape, "%s: whitened Jacobian shape %s", name, wJ.shape)
        P = np.linalg.inv(cov)
        m = r @ P @ r
        close(name + ": squared norm", wr @ wr, m, rtol=tol, scale=max(m, 1e-30))
        PJ = np.column_stack([r, J]).T @ P @ np.column_stack([r, J])
        X = np.column_stack([wr, wJ])
        close(name + ": Gram matrix of [residual, Jacobian]", X.T @ X, PJ, rtol=tol, scale=max(np.max(np.abs(PJ)), 1e-30))
        info.inner += 1
        if W is not None:
            close(name + ": residual", wr, W @ r, rtol=tol, scale=max(1e-30, np.max(np.abs(W @ r))))
            close(name + ": Jacobian", wJ, W @ J, rtol=tol, scale=max(1e-30, np.max(np.abs(W @ J))))
        return wr, wJ

    laws("Gaussian.make_from_covariance", noises.Gaussian.make_from_covariance(conv(cov)), cov)
    d = np.asarray(np.array(case["diag"]) / 16.0 * sc, M.F).astype(float)
    darg = [float(x) for x in d] if case["form"] == "list" else conv(d)
    dm = noises.DiagonalGaussian.make_from_covariance(darg)
    a = laws("DiagonalGaussian.make_from_covariance", dm, np.diag(d), np.diag(1 / np.sqrt(d)))
    b = laws("Gaussian of a diagonal", noises.Gaussian.make_from_covariance(conv(np.diag(d))), np.diag(d))
    # Integer variances, in every accepted form.
    iv = [int(x) for x in case["diag"]]
    iarg = {"np": np.array(iv), "jnp": jnp.array(iv), "list": iv if case["s"] % 2 else tuple(iv)}[case["form"]]
    laws("DiagonalGaussian of integer variances", noises.DiagonalGaussian.make_from_covariance(iarg), np.diag(np.array(iv, float)), np.diag(np.array(iv) ** -0.5))
    ic = np.diag(iv) + np.ones((n, n), int)
    if np.linalg.cond(ic) < (1e6 if X64 else 1e3):
        laws("Gaussian of an integer covariance", noises.Gaussian.make_from_covariance(np.array(ic) if case["form"] == "np" else jnp.array(ic)), ic.astype(float))
    # Equal up to an orthogonal map; both keep squared norms and Gram matrices.
    close("diagonal and full models", a[0] @ a[1], b[0] @ b[1], rtol=tol, scale=max(1e-30, np.max(np.abs(a[0] @ a[1])), np.linalg.norm(a[0]) * np.linalg.norm(a[1])))
    # Square-root precisions are applied as they are, also when not triangular.
    W = M.nums(case["s"] + 2, n * n).reshape(n, n) + 3 * np.eye(n)
    if np.linalg.cond(W) < 1e4:
        laws("Gaussian(sqrt_precision_matrix)", noises.Gaussian(sqrt_precision_matrix=conv(W)), np.linalg.inv(W.T @ W), W)
    s = 0.25 + np.abs(M.nums(case["s"] + 3, n))
    laws("DiagonalGaussian(sqrt_precision_diagonal)", noises.DiagonalGaussian(sqrt_precision_diagonal=conv(s)), np.diag(1 / s**2), np.diag(s))
    info.label("full covariance" if np.any(cov - np.diag(np.diag(cov))) else "diagonal covariance")
    info.nontrivial = n > 1 and np.any(r != 0) and float(np.ptp(d)) > 0

"""C06: COO matrices against dense numpy."""
import jax
import numpy as np
import scipy.sparse
from jax import numpy as jnp

from .. import gen, models as M
from ..cmp import close
from ..env import X64, require
from ..gen import st

from jaxfg import sparse

N_QUICK = 220
BUDGET_QUICK = 35
N_THOROUGH = 6000
RULE = "at least two entries, and a repeated coordinate, an unsorted order or a non-square shape"
TOL = 1e-12 if X64 else 1e-5


@st.composite
def _cases(draw, tier):
    big = 12 if tier != "quick" else 7
    m, n = draw(st.integers(1, big)), draw(st.integers(1, big))
    ent = draw(st.lists(
        st.tuples(st.integers(0, m - 1), st.integers(0, n - 1), st.integers(-24, 24)),
        min_size=0, max_size=3 * big,
    ))
    if draw(st.integers(0, 7)) == 1:  # larger
        m, n = m * draw(st.integers(1, 20)), n * draw(st.integers(1, 20))
        rs = np.random.RandomState(draw(gen.SEEDS))
        more = draw(st.integers(0, 400))
        ent = ent + [(int(rs.randint(m)), int(rs.randint(n)), int(rs.randint(-24, 25))) for _ in range(more)]
    return dict(
        m=m, n=n, e=[list(x) for x in ent], s=draw(gen.SEEDS), jnp=draw(st.booleans()),
        int=draw(st.integers(0, 5)) == 1, i32=draw(st.booleans()),
    )


def strategy(tier):
    return _cases(tier)


def check(case, info):
    m, n, e = case["m"], case["n"], case["e"]
    rows = np.array([x[0] for x in e], dtype=np.int64)
    cols = np.array([x[1] for x in e], dtype=np.int64)
    if case.get("i32"):
        rows, cols = rows.astype(np.int32), cols.astype(np.int32)
    vals = np.array([x[2] / 10 for x in e], dtype=M.F)
    if case.get("int"):
        vals = np.array([x[2] for x in e], dtype=int)
        info.label("integer values")
    D = np.zeros((m, n))
    np.add.at(D, (rows, cols), vals)
    if case["jnp"]:
        rows_, cols_, vals_ = jnp.asarray(rows), jnp.asarray(cols), jnp.asarray(vals)
    else:
        rows_, cols_, vals_ = rows, cols, vals
    A = sparse.SparseCooMatrix(
        values=vals_, coords=sparse.SparseCooCoordinates(rows=rows_, cols=cols_), shape=(m, n)
    )
    x, y = M.nums(case["s"], n).astype(M.F), M.nums(case["s"] + 1, m).astype(M.F)
    info.inner += 1
    sc = max(1.0, float(np.abs(D).sum(axis=1).max()), float(np.abs(D).sum(axis=0).max())) * 8
    close("A @ x", A @ jnp.asarray(x), D @ x, rtol=TOL, scale=sc)
    close("A @ x (numpy x)", A @ x, D @ x, rtol=TOL, scale=sc)
    xi = np.round(4 * x).astype(int)
    close("A @ x (integer x)", A @ jnp.asarray(xi), D @ xi, rtol=TOL, scale=sc)
    close("A @ x (integer numpy x)", A @ xi, D @ xi, rtol=TOL, scale=sc)
    if vals.dtype == M.F:
        close("A @ x (single precision x)", A @ x.astype(np.float32), D @ x.astype(np.float32), rtol=TOL, scale=sc)
    close("as_dense", A.as_dense(), D, rtol=TOL, scale=sc)
    T = A.T
    require(tuple(T.shape) == (n, m), "A.T shape %s", T.shape)
    close("A.T @ y", T @ jnp.asarray(y), D.T @ y, rtol=TOL, scale=sc)
    close("A.T as_dense", T.as_dense(), D.T, rtol=TOL, scale=sc)
    require(tuple(T.T.shape) == (m, n), "A.T.T shape")
    close("A.T.T @ x", T.T @ jnp.asarray(x), D @ x, rtol=TOL, scale=sc)
    S = A.as_scipy_coo_matrix()
    require(S.shape == (m, n), "scipy shape %s", S.shape)
    close("scipy", S.toarray(), D, rtol=TOL, scale=sc)
    close("scipy of A.T", T.as_scipy_coo_matrix().toarray(), D.T, rtol=TOL, scale=sc)
    B = sparse.SparseCooMatrix.from_scipy_coo_matrix(
        scipy.sparse.coo_matrix((vals, (rows, cols)), shape=(m, n))
    )
    require(tuple(B.shape) == (m, n), "from_scipy shape")
    close("from scipy, dense", B.as_dense(), D, rtol=TOL, scale=sc)
    close("from scipy, @", B @ jnp.asarray(x), D @ x, rtol=TOL, scale=sc)
    close("round trip", B.as_scipy_coo_matrix().toarray(), D, rtol=TOL, scale=sc)
    if case["s"] % 4 == 0:
        info.label("under jit")
        f = jax.jit(lambda A, x, y: (A @ x, A.T @ y, A.as_dense(), A.T.as_dense()))
        for nm, got, want in zip("abcd", f(A, x, y), (D @ x, D.T @ y, D, D.T)):
            close("jitted " + nm, got, want, rtol=TOL, scale=sc)
    flat = [(r, c) for r, c, _ in e]
    dup = len(set(flat)) < len(flat)
    if dup:
        info.label("repeated coordinates")
    if flat != sorted(flat):
        info.label("unsorted")
    if any(x[2] == 0 for x in e):
        info.label("explicit zero")
    if m != n:
        info.label("not square")
    if not e:
        info.label("no entries")
    info.nontrivial = len(e) >= 2 and (dup or flat != sorted(flat) or m != n)

"""Graphs with tens of thousands of parameters and residuals, all linear, in plain arrays."""
import numpy as np

from . import models as M
from .gen import st

from jaxfg import core, noises

SIZES = st.sampled_from([4200, 8300])  # times 8: beyond 2**15 and 2**16
DIM = 8


def make(n, seed):
    """(graph, assignments, whitened residuals, map from local deltas to their change)."""
    rs = np.random.RandomState(seed)
    vs = M.make_vars(["r8"] * n)
    ends = np.stack([np.arange(n), (np.arange(n) + 1 + rs.randint(0, n - 1, n)) % n], axis=1)
    Ma, Mb = (rs.randint(-16, 17, (n, DIM, DIM)) * 0.1125 for _ in range(2))
    bias = rs.uniform(-2, 2, (n, DIM))
    s = 0.25 + rs.rand(n, DIM)
    cast = [np.asarray(x, M.F) for x in (Ma, Mb, bias, s)]
    order = rs.permutation(n)
    factors = [
        M.LinearFactor(
            variables=(vs[ends[i, 0]], vs[ends[i, 1]]), noise_model=noises.DiagonalGaussian(sqrt_precision_diagonal=cast[3][i]),
            mats=(cast[0][i], cast[1][i]), bias=cast[2][i])
        for i in order
    ]
    graph = core.StackedFactorGraph.make(factors)
    x = rs.randint(-16, 17, (n, DIM)) * 0.1125

    def storage(values, layout):
        out = np.zeros(n * DIM)
        for v, y in zip(vs, values):
            j = layout.index_from_variable[v]
            out[j:j + DIM] = y
        return np.asarray(out, M.F)

    a = core.VariableAssignments(storage=storage(x, graph.storage_layout), storage_layout=graph.storage_layout)

    def change(d):
        return s * (np.einsum("nij,nj->ni", Ma, d[ends[:, 0]]) + np.einsum("nij,nj->ni", Mb, d[ends[:, 1]]))

    return graph, a, (change(x) - s * bias).reshape(-1), change, storage, rs

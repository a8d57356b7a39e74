"""C23: misuse raises an exception."""
from typing import Any, NamedTuple, Tuple

import jax
import jax_dataclasses as jdc
import jaxlie
import numpy as np
from jax import numpy as jnp

from .. import gen, models as M, steps
from ..env import Violation, require
from ..gen import st

from jaxfg import core, geometry, noises, solvers, sparse

N_QUICK = 120
BUDGET_QUICK = 45
N_THOROUGH = 1500
X32_WORKERS = 1
RULE = "the misuse was applied after the same call without misuse went through"

MISUSES = [
    "missing", "extra", "replaced", "local", "relayout-other", "relayout-missing", "relayout-local", "retract-nonlocal",
    "retract-other", "retract-missing", "retract-local-base", "get-unassigned", "set-unassigned", "stacked-unassigned",
    "untyped", "wrong-type", "too-many", "too-few", "named-type", "named-count", "noise-dim", "noise-dim-huber", "between-mixed",
    "between-T", "covariance", "matmul", "nll-huber", "nll-constants", "vector-dim", "noise-whiten", "noise-jacobian",
]
CALLS = ["cost", "residual", "jacobian", "gn", "lm", "dl", "fixed", "nll"]


@st.composite
def _cases(draw, tier):
    m = draw(st.sampled_from(MISUSES))
    noisy = ["d", "f"] if m.startswith("nll") else ["d", "f", "hd"]
    g = draw(gen.graphs(noises=noisy, max_vars=5, max_factors=5, max_tpl=2, anchors=True, max_kinds=3))
    g["m"] = m
    g["call"] = draw(st.sampled_from(CALLS))
    g["a"], g["b"] = draw(gen.SEEDS), draw(gen.SEEDS)
    g["x0"] = draw(gen.SEEDS)
    return g


def strategy(tier):
    return _cases(tier)


@jdc.pytree_dataclass
class Untyped(core.FactorBase[Any]):
    def compute_residual_vector(self, variable_values):
        return variable_values[0] * 1.0

    compute_residual_vector.__override__ = True


def typed(hint):
    @jdc.pytree_dataclass
    class Typed(core.FactorBase[Any]):
        def compute_residual_vector(self, variable_values: Any) -> jnp.ndarray:
            x = variable_values[0]
            return jnp.ravel(x if not hasattr(x, "log") else x.log()) * 1.0

        compute_residual_vector.__annotations__["variable_values"] = hint
        compute_residual_vector.__override__ = True

    return Typed


class OneArray(NamedTuple):
    x: jax.Array


class TwoArrays(NamedTuple):
    x: jax.Array
    y: jax.Array


class OnePose(NamedTuple):
    T: jaxlie.SE2


class Mixed(NamedTuple):
    T: jaxlie.SE2
    x: jax.Array


_CLS = {}


def factor_class(key, hint):
    if key not in _CLS:
        _CLS[key] = typed(hint)
    return _CLS[key]


HINTS = dict(
    a=Tuple[jax.Array], aa=Tuple[jax.Array, jax.Array], T=Tuple[jaxlie.SE2], Ta=Tuple[jaxlie.SE2, jax.Array],
    alla=Tuple[jax.Array, ...], allT=Tuple[jaxlie.SE2, ...], n1=OneArray, n2=TwoArrays, nT=OnePose, nTa=Mixed,
)
# For each hint, variable kinds that fit.
FIT = dict(a=["r2"], aa=["r2", "r3"], T=["se2"], Ta=["se2", "r2"], alla=["r2", "r2", "r3"], allT=["se2", "se2"],
           n1=["r2"], n2=["r3", "r2"], nT=["se2"], nTa=["se2", "r1"])


def expect(info, name, good, bad):
    """good() must work and bad() must raise."""
    if good is not None:
        good()
    try:
        out = bad()
        jax.block_until_ready([x for x in jax.tree_util.tree_leaves(out) if isinstance(x, jax.Array)])
    except Exception:
        info.inner += 1
        info.nontrivial = True
        return
    raise Violation("%s: no exception, result %s" % (name, repr(out)[:300]))


def call(graph, how, a):
    if how == "cost":
        return graph.compute_cost(a)[0]
    if how == "residual":
        return graph.compute_whitened_residual_vector(a)
    if how == "nll":
        return graph.compute_joint_nll(a)
    if how == "jacobian":
        return graph.compute_whitened_residual_jacobian(a, np.zeros(graph.residual_dim, M.F)).values
    lin = sparse.CholmodSolver() if how == "gn" else sparse.ConjugateGradientSolver()
    if how == "fixed":
        s = solvers.FixedIterationGaussNewtonSolver(verbose=False, linear_solver=lin, iterations=1, unroll=False)
    else:
        s = steps.solver(how, lin, 1)
    return graph.solve(a, solver=s).storage


def extra_var(case, kind_index):
    """A variable that the graph does not have, of a kind it has."""
    k = case["vars"][kind_index % len(case["vars"])]
    return k, M.pool_var(k, 40)


def check(case, info):
    m = case["m"]
    info.label("misuse " + m)
    b = M.build(case)
    used = M.used_vars(case)
    flats = M.flats_for(case, case["x0"])
    a, bb = case["a"], case["b"]
    how = case["call"]
    if how == "nll" and any(case["tpl"][f["p"]]["n"] not in ("d", "f") for f in case["fs"]):
        how = "cost"
    graph = core.StackedFactorGraph.make(b.factors)
    good = M.assignments_for(b, flats, None, used)
    value = {b.vars[i]: M.KINDS[b.kinds[i]].make(flats[i]) for i in used}
    vars_ = list(value)
    pick = vars_[a % len(vars_)]
    make = core.VariableAssignments.make_from_dict
    local = core.StorageLayout.make(vars_, local=True)
    zero = core.VariableAssignments(storage=np.zeros(local.dim, M.F), storage_layout=local)

    def other_pool(v):
        k = M.KIND_OF_CLASS[type(v)]
        return M.pool_var(k, 40)

    def without(v):
        return {x: y for x, y in value.items() if x is not v}

    if m in ("missing", "extra", "replaced", "local"):
        info.label("call " + how)
        if m == "missing":
            if len(value) < 2:
                info.label("skipped: one variable")
                return
            bad = make(without(pick))
        elif m == "extra":
            bad = make({**value, other_pool(pick): value[pick]})
        elif m == "replaced":
            bad = make({**without(pick), other_pool(pick): value[pick]})
        else:
            bad = core.VariableAssignments(storage=np.ones(local.dim, M.F), storage_layout=local)
        expect(info, "%s with %s variable" % (how, m), lambda: call(graph, how, good), lambda: call(graph, how, bad))
    elif m.startswith("relayout"):
        if m == "relayout-other":
            to = core.StorageLayout.make([other_pool(v) if v is pick else v for v in vars_], local=False)
        elif m == "relayout-missing":
            if len(value) < 2:
                info.label("skipped: one variable")
                return
            to = core.StorageLayout.make([v for v in vars_ if v is not pick], local=False)
        else:
            to = local
        same = core.StorageLayout.make(list(reversed(vars_)), local=False)
        expect(info, "update_storage_layout (%s)" % m, lambda: good.update_storage_layout(same), lambda: good.update_storage_layout(to))
    elif m.startswith("retract"):
        base, d = good, zero
        if m == "retract-nonlocal":
            d = core.VariableAssignments(storage=np.zeros(good.storage_layout.dim, M.F), storage_layout=good.storage_layout)
        elif m == "retract-other":
            lay = core.StorageLayout.make([other_pool(v) if v is pick else v for v in vars_], local=True)
            d = core.VariableAssignments(storage=np.zeros(lay.dim, M.F), storage_layout=lay)
        elif m == "retract-missing":
            # Same or fewer variables; also an additional one.
            vs = [v for v in vars_ if v is not pick] if bb % 2 and len(vars_) > 1 else vars_ + [other_pool(pick)]
            lay = core.StorageLayout.make(vs, local=True)
            d = core.VariableAssignments(storage=np.zeros(lay.dim, M.F), storage_layout=lay)
        else:
            base = zero
        expect(info, m, lambda: good.manifold_retract(zero), lambda: base.manifold_retract(d))
    elif m == "get-unassigned":
        expect(info, m, lambda: good.get_value(pick), lambda: good.get_value(other_pool(pick)))
    elif m == "set-unassigned":
        expect(info, m, lambda: good.set_value(pick, value[pick]), lambda: good.set_value(other_pool(pick), value[pick]))
    elif m == "stacked-unassigned":
        k = next(k for k in M.ALL_KINDS if k not in {b.kinds[i] for i in used})
        expect(info, m, lambda: good.get_stacked_value(type(pick)), lambda: good.get_stacked_value(M.KINDS[k].cls))
    elif m == "untyped":
        v = M.pool_var("r2", 0)
        n = noises.DiagonalGaussian(np.ones(2, M.F))
        vals = make({v: np.ones(2, M.F)})
        ok = core.StackedFactorGraph.make([factor_class("a", HINTS["a"])(variables=(v,), noise_model=n)])
        how = "cost" if how == "nll" else how
        expect(info, "a factor without type hints", lambda: call(ok, how, vals),
               lambda: call(core.StackedFactorGraph.make([Untyped(variables=(v,), noise_model=n)]), how, vals))
    elif m in ("wrong-type", "too-many", "too-few", "named-type", "named-count"):
        pools = {
            "wrong-type": ["a", "aa", "T", "Ta", "alla", "allT"], "too-many": ["a", "aa", "T", "Ta"], "too-few": ["aa", "Ta"],
            "named-type": ["n1", "n2", "nT", "nTa"], "named-count": ["n1", "n2", "nT", "nTa"],
        }[m]
        h = pools[a % len(pools)]
        ks = list(FIT[h])
        bad = list(ks)
        if m in ("wrong-type", "named-type"):
            i = bb % len(bad)
            bad[i] = "r3" if bad[i] == "se2" else ["se2", "so3"][bb // 7 % 2]
        elif m == "too-many" or (m == "named-count" and (len(bad) == 1 or bb % 2)):
            bad.append(bad[-1])
        else:
            bad.pop(1)
        cls = factor_class(h, HINTS[h])

        def run(kinds):
            vs = tuple(M.pool_var(k, i) for i, k in enumerate(kinds))
            rd = M.KINDS[kinds[0]].local
            f = cls(variables=vs, noise_model=noises.DiagonalGaussian(np.ones(rd, M.F)))
            vals = make({v: M.KINDS[k].make(M.KINDS[k].gen(case["x0"])) for v, k in zip(vs, kinds)})
            return call(core.StackedFactorGraph.make([f]), how if how in ("cost", "residual", "jacobian") else "cost", vals)

        expect(info, "hint %s with variables %s" % (h, bad), lambda: run(ks), lambda: run(bad))
    elif m in ("noise-dim", "noise-dim-huber"):
        i = a % len(b.factors)
        f, r = b.factors[i], b.refs[i].rdim
        wrong = [x for x in (1, r - 1, r + 1, 2 * r) if x >= 1 and x != r]
        w = wrong[bb % len(wrong)]
        n = noises.DiagonalGaussian(np.ones(w, M.F)) if bb // 5 % 2 else noises.Gaussian(np.eye(w, dtype=M.F))
        if m == "noise-dim-huber":
            n = noises.HuberWrapper(wrapped=n, delta=1.0)
            how = "cost" if how == "nll" else how
        if case["tpl"][case["fs"][i]["p"]]["t"] == "sp":
            info.label("skipped: residual follows the noise dimension")
            return
        # A mismatch raises already when the residual is whitened.
        fs = list(b.factors)
        fs[i] = jdc.replace(f, noise_model=n)
        expect(info, "noise model of dimension %d for a residual of %d (%s)" % (w, r, how), lambda: call(graph, how, good),
               lambda: call(core.StackedFactorGraph.make(fs), how, good))
    elif m == "noise-whiten":
        d = 1 + a % 4
        wrong = [x for x in (1, d - 1, d + 1, 2 * d) if x >= 1 and x != d]
        w = wrong[bb % len(wrong)]
        n = noises.DiagonalGaussian(np.ones(d, M.F)) if bb // 5 % 2 else noises.Gaussian(np.eye(d, dtype=M.F))
        if bb // 11 % 2:
            n = noises.HuberWrapper(wrapped=n, delta=1.0)
        expect(info, "whitening %d numbers with a model of dimension %d" % (w, d), lambda: n.whiten_residual_vector(np.ones(d, M.F)),
               lambda: n.whiten_residual_vector(np.ones(w, M.F)))
    elif m == "noise-jacobian":
        d = 1 + a % 4
        wrong = [x for x in (1, d - 1, d + 1, 2 * d) if x >= 1 and x != d]
        w = wrong[bb % len(wrong)]
        n = noises.DiagonalGaussian(np.ones(d, M.F)) if bb // 5 % 2 else noises.Gaussian(np.eye(d, dtype=M.F))
        expect(info, "whitening a Jacobian of %d rows with a model of dimension %d" % (w, d),
               lambda: n.whiten_jacobian(np.ones((d, 3), M.F), np.ones(d, M.F)),
               lambda: n.whiten_jacobian(np.ones((w, 3), M.F), np.ones(w, M.F)))
    elif m in ("between-mixed", "between-T"):
        i = a % 4
        j = (i + 1 + bb % 3) % 4
        g, h = M.LIE_KINDS[i], M.LIE_KINDS[j]
        n = noises.DiagonalGaussian(np.ones(M.KINDS[g].local, M.F))
        T = lambda k: M.KINDS[k].make(M.KINDS[k].gen(bb))
        v = lambda k, q: M.pool_var(k, q)
        ok = lambda: geometry.BetweenFactor.make(v(g, 0), v(g, 1), T(g), n)
        if m == "between-mixed":
            pair = (v(g, 0), v(h, 1)) if bb // 3 % 2 else (v(h, 0), v(g, 1))
            expect(info, "between factor of %s and %s" % (g, h), ok, lambda: geometry.BetweenFactor.make(*pair, T(g), n))
        else:
            expect(info, "between factor of two %s with a %s measurement" % (g, h), ok,
                   lambda: geometry.BetweenFactor.make(v(g, 0), v(g, 1), T(h), n))
    elif m == "covariance":
        d = 1 + a % 4
        shapes = [(d, d + 1), (d + 1, d), (d,), (2, d, d), ()]
        s = shapes[bb % len(shapes)]
        cov = np.ones(s, M.F) + (np.eye(*s, dtype=M.F) if len(s) == 2 else 0)
        expect(info, "covariance of shape %s" % (s,), lambda: noises.Gaussian.make_from_covariance(np.eye(d, dtype=M.F)),
               lambda: noises.Gaussian.make_from_covariance(cov))
    elif m == "matmul":
        r0 = np.zeros(graph.residual_dim, M.F)
        A = graph.compute_whitened_residual_jacobian(good, r0)
        A = A.T if bb % 2 else A
        n = A.shape[1]
        if A.shape[0] != n:
            wrong = [(n + 1,), (1,) if n != 1 else (2,), (A.shape[0],), (n, 1), (1, n), (n - 1,)]
        else:
            wrong = [(n + 1,), (n, 1), (1, n), (n - 1,), ()]
        w = wrong[a % len(wrong)]
        expect(info, "matrix of shape %s times %s" % (A.shape, w), lambda: A @ np.ones(n, M.F), lambda: A @ np.ones(w, M.F))
    elif m == "nll-huber":
        i = a % len(b.factors)
        fs = list(b.factors)
        fs[i] = jdc.replace(fs[i], noise_model=noises.HuberWrapper(wrapped=fs[i].noise_model, delta=1.0))
        bad = core.StackedFactorGraph.make(fs)
        expect(info, m, lambda: graph.compute_joint_nll(good), lambda: bad.compute_joint_nll(good))
    elif m == "nll-constants":
        expect(info, m, lambda: graph.compute_joint_nll(good), lambda: graph.compute_joint_nll(good, include_constants=True)
               if bb % 2 else graph.compute_joint_nll(good, True))
    elif m == "vector-dim":
        bad = [1.5, 2.5, "3", None, (2,), [2], np.ones(2)][bb % 7]
        expect(info, "RealVectorVariable[%r]" % (bad,), lambda: core.RealVectorVariable[2], lambda: core.RealVectorVariable[bad])
    else:
        raise KeyError(m)

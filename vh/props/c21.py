"""C21: variable types with generated value structures."""
from typing import Any, NamedTuple

import jax
import jax_dataclasses as jdc
import numpy as np
from jax import numpy as jnp

from .. import gen, models as M
from ..cmp import close
from ..env import X64, require
from ..gen import st

from jaxfg import core

N_QUICK = 100
BUDGET_QUICK = 45
N_THOROUGH = 3000
X32_WORKERS = 1
RULE = "a nested structure with two or more leaves"
TOL = 1e-10 if X64 else 1e-5


class Two(NamedTuple):
    u: Any
    w: Any


@jdc.pytree_dataclass
class Box:
    z: Any
    y: Any


def overrides(f):
    """The library wants overriding methods marked; the decorator of the overrides package
    cannot resolve base classes held in local variables."""
    f.__override__ = True
    return f


LEAF = st.sampled_from(["s", "1", "2", "3", "22", "31", "12", "p", "221"])


def _node(child):
    return st.one_of(
        st.tuples(st.just("dict"), st.lists(st.tuples(st.sampled_from("zbaxq"), child), min_size=1, max_size=3, unique_by=lambda t: t[0])),
        st.tuples(st.just("list"), st.lists(child, min_size=1, max_size=3)),
        st.tuples(st.just("tuple"), st.lists(child, min_size=1, max_size=3)),
        st.tuples(st.just("nt"), st.lists(child, min_size=2, max_size=2)),
        st.tuples(st.just("box"), st.lists(child, min_size=2, max_size=2)),
    )


@st.composite
def _cases(draw, tier):
    tree = draw(st.recursive(LEAF, _node, max_leaves=8 if tier != "quick" else 5))
    return dict(
        tree=_jsonable(tree), s=draw(gen.SEEDS), dim=[draw(st.integers(1, 12)), draw(st.integers(1, 12))],
        retract=draw(st.sampled_from(["default", "default", "scaled", "half"])),
    )


def _jsonable(t):
    if isinstance(t, str):
        return t
    if t[0] == "dict":
        return ["dict", [[k, _jsonable(v)] for k, v in t[1]]]
    return [t[0], [_jsonable(v) for v in t[1]]]


def strategy(tier):
    return _cases(tier)


def leaf_shape(t):
    return () if t in ("s", "p") else tuple(int(c) for c in t)


def build(t, take, py=True):
    """A value of structure t with numbers from take(n)."""
    if isinstance(t, str):
        sh = leaf_shape(t)
        x = take(int(np.prod(sh)) if sh else 1)
        if t == "p" and py:
            return float(x[0])
        return jnp.asarray(np.asarray(x, M.F).reshape(sh))
    kind, ch = t
    if kind == "dict":
        return {k: build(v, take, py) for k, v in ch}
    xs = [build(v, take, py) for v in ch]
    if kind == "list":
        return xs
    if kind == "tuple":
        return tuple(xs)
    return Two(*xs) if kind == "nt" else Box(z=xs[0], y=xs[1])


def count(t):
    if isinstance(t, str):
        return int(np.prod(leaf_shape(t))) if leaf_shape(t) else 1
    return sum(count(v[1] if t[0] == "dict" else v) for v in t[1])


def leaves(t):
    if isinstance(t, str):
        return 1
    return sum(leaves(v[1] if t[0] == "dict" else v) for v in t[1])


def make_class(tree, seed, retract, base=core.VariableBase[Any]):
    """A user-defined variable type."""

    class V(base):
        @classmethod
        @overrides
        def get_default_value(cls) -> Any:
            return build(tree, taker(M.nums(seed, count(tree))))

    if retract == "default":
        return V
    n = count(tree)
    if retract == "scaled":

        class W(V):
            @classmethod
            @overrides
            def manifold_retract(cls, x: Any, local_delta: Any) -> Any:
                return jax.tree_util.tree_map(lambda l: l * jnp.exp(local_delta[0]) + jnp.sin(local_delta[-1]), x)

        return W

    class H(V):
        @classmethod
        @overrides
        def get_local_parameter_dim(cls) -> int:
            return (n + 1) // 2

        @classmethod
        @overrides
        def manifold_retract(cls, x: Any, local_delta: Any) -> Any:
            d = jnp.resize(local_delta, (n,))
            it = [0]

            def f(l):
                k = int(np.size(l))
                o = l + jnp.reshape(jnp.sin(d[it[0]:it[0] + k]), np.shape(l))
                it[0] += k
                return o

            return jax.tree_util.tree_map(f, x)

    return H


def taker(xs):
    pos = [0]

    def take(n):
        pos[0] += n
        return xs[pos[0] - n:pos[0]]

    return take


def same_tree(a, b):
    return jax.tree_util.tree_structure(a) == jax.tree_util.tree_structure(b) and all(
        np.shape(x) == np.shape(y) for x, y in zip(jax.tree_util.tree_leaves(a), jax.tree_util.tree_leaves(b)))


def flatnp(v):
    return [np.asarray(x, float) for x in jax.tree_util.tree_leaves(v)]


CANON, DIMS = {}, {}


def check(case, info):
    tree, s = case["tree"], case["s"]
    V = make_class(tree, s, case["retract"])
    n = count(tree)
    value = build(tree, taker(M.nums(s + 1, n)))
    info.inner += 1
    require(V.get_parameter_dim() == n, "parameter dimension %s, expected %d", V.get_parameter_dim(), n)
    flat = V.flatten(value)
    require(np.shape(flat) == (n,), "flat shape %s", np.shape(flat))
    close("flattening keeps the numbers", np.sort(np.asarray(flat, float)), np.sort(M.nums(s + 1, n)), rtol=TOL)
    back = V.unflatten(flat)
    require(same_tree(back, build(tree, taker(M.nums(s + 1, n)), py=False)), "unflatten gives another structure: %s", back)
    for x, y in zip(flatnp(back), flatnp(value)):
        close("unflatten(flatten(value))", x, y, rtol=TOL)
    x = jnp.asarray(M.nums(s + 2, n), M.F)
    close("flatten(unflatten(x))", V.flatten(V.unflatten(x)), x, rtol=TOL)
    default = V.get_default_value()
    for a, b in zip(flatnp(V.unflatten(V.flatten(default))), flatnp(build(tree, taker(M.nums(s, n))))):
        close("default round trip", a, b, rtol=TOL)
    # Retraction.
    loc = V.get_local_parameter_dim()
    require(loc == (n if case["retract"] != "half" else (n + 1) // 2), "local dimension %s", loc)
    d = jnp.asarray(M.nums(s + 3, loc) * 0.25, M.F)
    v2 = jax.tree_util.tree_map(jnp.asarray, value)
    if case["retract"] == "default":
        moved = V.manifold_retract(v2, d)
        require(same_tree(moved, back), "retraction gives another structure")
        close("default retraction", V.flatten(moved), np.asarray(flat, float) + np.asarray(d, float), rtol=TOL)
    J = V.manifold_retract_jacobian(v2)
    lv = jax.tree_util.tree_leaves(v2)
    J = list(J)
    require(len(J) == len(lv), "retraction Jacobian has %d parts for %d leaves", len(J), len(lv))
    h = 1e-4 if X64 else 1e-2
    cols = []
    for j in range(loc):
        e = np.zeros(loc, M.F)
        e[j] = h
        up = flatnp(V.manifold_retract(v2, jnp.asarray(e)))
        dn = flatnp(V.manifold_retract(v2, jnp.asarray(-e)))
        cols.append([(a - b) / (2 * h) for a, b in zip(up, dn)])
    for k in range(len(lv)):
        want = np.stack([c[k].reshape(-1) for c in cols], axis=1)
        close("retraction Jacobian of leaf %d" % k, np.asarray(J[k], float).reshape(-1, loc), want, rtol=1e-6 if X64 else 5e-3)
    # Identity of types and objects.
    a, b = V(), V()
    require(a != b and len({a, b}) == 2, "two variable objects are not distinct")
    require(V.canonical_instance() is V.canonical_instance() and type(V.canonical_instance()) is V, "canonical instance")
    require(V.canonical_instance() is not a, "a new variable is the canonical instance")
    CANON[V] = V.canonical_instance()
    for c, obj in CANON.items():  # also of types from earlier cases
        require(c.canonical_instance() is obj, "the canonical instance of a type has changed")
    p, q = case["dim"]
    # More and more dimensions in one process, more than 128 at the end.
    for n_ in range(1, min(30 + 2 * len(DIMS), 145)):
        DIMS.setdefault(n_, core.RealVectorVariable[n_])
    require(all(core.RealVectorVariable[n_] is c for n_, c in DIMS.items()), "RealVectorVariable[n] has changed")
    P, Q = core.RealVectorVariable[p], core.RealVectorVariable[q]
    require((P is Q) == (p == q), "RealVectorVariable[%d] and [%d]", p, q)
    require(P.get_parameter_dim() == p and P.get_local_parameter_dim() == p, "dimension of RealVectorVariable[%d]", p)
    require(np.shape(P.get_default_value()) == (p,) and not np.any(np.asarray(P.get_default_value())), "default of RealVectorVariable")
    require(type(P.canonical_instance()) is P and type(Q.canonical_instance()) is Q, "canonical instances of vector types")
    # A type derived from another one has its own dimension and canonical instance.
    t2 = ["tuple", [tree, "3"]]
    D = make_class(t2, s, "default", V)
    require(D.get_parameter_dim() == n + 3 and V.get_parameter_dim() == n, "dimension of a derived type")
    require(type(D.canonical_instance()) is D and type(V.canonical_instance()) is V, "canonical instance of a derived type")
    xd = jnp.asarray(M.nums(s + 4, n + 3), M.F)
    close("derived type round trip", D.flatten(D.unflatten(xd)), xd, rtol=TOL)
    info.label("retraction " + case["retract"])
    info.label("leaves %d" % min(leaves(tree), 4))
    info.nontrivial = leaves(tree) >= 2

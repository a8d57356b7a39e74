"""Variable and factor types used by the generated graphs, each with a numpy reference.

A generated graph is a JSON case:
  vars: list of kind codes (see KINDS); variable i is the i-th entry
  tpl:  list of factor templates {t, k: kinds, r: residual dim, n: noise kind, s: static}
  fs:   list of factors {p: template, v: variable indices, s: number seed, y: style}
All numbers are derived from the small integer seeds with `nums` (multiples of 1/8)."""
from typing import Any, Dict, NamedTuple, Tuple

from . import env  # noqa: F401  (first: sets up jax)

import jax
import jax_dataclasses as jdc
import jaxlie
import numpy as np
from jax import numpy as jnp
from jaxfg import core, geometry, noises

from . import lie


def overrides(f):
    """Marks an overriding method, as jaxfg's base classes ask, without comparing annotations."""
    f.__override__ = True
    return f


F = np.float64 if env.X64 else np.float32


def nums(seed, n, style="n"):
    """n deterministic multiples of 1/8 or 0.9/8 (style: n normal, z zeros, b big, t tiny, o ones)."""
    if style == "z":
        return np.zeros(n)
    if style == "o":
        return np.ones(n)
    rs = np.random.RandomState(seed % (2**32))
    x = rs.randint(-16, 17, size=n) / 8.0
    if seed % 3 == 1:
        x = x * 0.9  # not exactly representable in single precision
    if style == "b":
        x = x * 64
    elif style == "t":
        x = x / 512
    return x


# --------------------------------------------------------------------------- variables


class Vec2(core.VariableBase[jax.Array]):
    """Same value shape as RealVectorVariable[2], but another type."""

    @classmethod
    @overrides
    def get_default_value(cls) -> jax.Array:
        return jnp.array([0.5, -0.25])


def _same_name():
    # A different type that has the name of the one above.
    class Vec2(core.VariableBase[jax.Array]):
        @classmethod
        @overrides
        def get_default_value(cls) -> jax.Array:
            return jnp.array([-1.0, 4.0])

    return Vec2


Vec2Again = _same_name()


class SubVec2(core.RealVectorVariable[2]):  # type: ignore
    """A type derived from another variable type: neither may stand for the other."""


class SubSE2(geometry.SE2Variable):
    pass


class ScalarVariable(core.VariableBase[jax.Array]):
    @classmethod
    @overrides
    def get_default_value(cls) -> jax.Array:
        return jnp.array(1.5)


@jdc.pytree_dataclass
class Point:
    a: Any
    b: Any


class PointVariable(core.VariableBase[Point]):
    @classmethod
    @overrides
    def get_default_value(cls) -> Point:
        return Point(a=jnp.array([1.0, 2.0]), b=jnp.array(-3.0))


class DictVariable(core.VariableBase[Dict[str, jax.Array]]):
    @classmethod
    @overrides
    def get_default_value(cls) -> Dict[str, jax.Array]:
        return {"m": jnp.array([[1.0, 2.0], [3.0, 4.0]]), "a": jnp.array(0.25)}


def sphere_basis(xp, n):
    e = xp.asarray(np.array([0.36, 0.48, 0.8], dtype=F if xp is jnp else float))
    b1 = xp.cross(n, e)
    b1 = b1 / xp.sqrt(xp.sum(b1 * b1))
    return b1, xp.cross(n, b1)


def sphere_retract(xp, n, d):
    b1, b2 = sphere_basis(xp, n)
    m = n + b1 * d[0] + b2 * d[1]
    return m / xp.sqrt(xp.sum(m * m))


class SphereVariable(core.VariableBase[jax.Array]):
    @classmethod
    @overrides
    def get_default_value(cls) -> jax.Array:
        return jnp.array([1.0, 0.0, 0.0])

    @classmethod
    @overrides
    def get_local_parameter_dim(cls) -> int:
        return 2

    @classmethod
    @overrides
    def manifold_retract(cls, x: jax.Array, local_delta: Any) -> jax.Array:
        return sphere_retract(jnp, x, local_delta)


class PositiveVariable(core.VariableBase[jax.Array]):
    """Positive scalar with multiplicative retraction and analytic Jacobian."""

    @classmethod
    @overrides
    def get_default_value(cls) -> jax.Array:
        return jnp.array(2.0)

    @classmethod
    @overrides
    def manifold_retract(cls, x: jax.Array, local_delta: Any) -> jax.Array:
        return x * jnp.exp(local_delta[0])

    @classmethod
    @overrides
    def manifold_retract_jacobian(cls, x: jax.Array) -> Tuple[jnp.ndarray, ...]:
        return (jnp.reshape(x, (1, 1)),)


class ScaleVariable(core.VariableBase[jax.Array]):
    """Positive vector with multiplicative retraction and the default Jacobian: as many
    local as global parameters, but not a vector space."""

    @classmethod
    @overrides
    def get_default_value(cls) -> jax.Array:
        return jnp.array([1.0, 2.0])

    @classmethod
    @overrides
    def manifold_retract(cls, x: jax.Array, local_delta: Any) -> jax.Array:
        return x * jnp.exp(local_delta[::-1])


class PairVariable(core.VariableBase[Dict[str, Any]]):
    """Pose and vector; local parameters (vector, pose), not in the flatten order."""

    @classmethod
    @overrides
    def get_default_value(cls) -> Dict[str, Any]:
        return {"T": jaxlie.SE2.identity(), "v": jnp.zeros(2)}

    @classmethod
    @overrides
    def get_local_parameter_dim(cls) -> int:
        return 5

    @classmethod
    @overrides
    def manifold_retract(cls, x: Dict[str, Any], local_delta: Any) -> Dict[str, Any]:
        return {
            "T": jaxlie.manifold.rplus(x["T"], local_delta[2:5]),
            "v": x["v"] + local_delta[0:2],
        }


class Kind(NamedTuple):
    cls: Any
    dim: int  # flat parameter dimension
    local: int
    make: Any  # flat numpy -> value
    feats: Any  # value -> jax feature vector (by field names)
    rfeats: Any  # flat numpy -> feature vector
    gen: Any  # seed, style -> flat numpy
    retract: Any  # flat, delta -> flat
    fdim: int
    lie: Any = None
    vector: bool = False


def _gen_vec(n):
    return lambda s, y="n": nums(s, n, y)


def _euclid(p, d):
    return p + d


def _gen_lie(g):
    def gen(s, y="n"):
        t = nums(s, lie.TANGENT[g], y)
        k = dict(so2=1, se2=1, so3=3, se3=3)[g]
        # Rotations up to about 2.4 rad; translations up to 2 (or 128 for "big").
        rot = np.clip(t[-k:], -2, 2) * (1.2 if k == 1 else 0.69)
        if y == "b":
            rot = rot * 0.9
        t = np.concatenate([t[:-k], rot])
        if g in ("se2", "se3"):
            rg = "so" + g[-1]
            m = np.eye(len(t) - k + 1)
            m[:-1, :-1] = lie.exp(rg, rot)
            m[:-1, -1] = t[:-k]
        else:
            m = lie.exp(g, rot)
        p = lie.from_matrix(g, m)
        # Both quaternion signs are valid representations.
        if g in ("so3", "se3") and s % 2:
            p[:4] = -p[:4]
        return p

    return gen


def _lie_retract(g):
    def f(p, d):
        q = lie.from_matrix(g, lie.to_matrix(g, p) @ lie.exp(g, d))
        return q

    return f


def _gen_sphere(s, y="n"):
    v = nums(s, 3, "n") + np.array([0.06, 0.03, -0.05])
    if np.linalg.norm(np.cross(v, [0.36, 0.48, 0.8])) < 0.2 * np.linalg.norm(v):
        v = np.array([v[2] + 1.0, -v[1] - 0.5, v[0] * 0.25])
        if np.linalg.norm(np.cross(v, [0.36, 0.48, 0.8])) < 0.2 * np.linalg.norm(v):
            v = np.array([1.0, 0.0, 0.0])
    return v / np.linalg.norm(v)


def _lie_kind(code, cls, group):
    # code: name of the group
    field = dict(so2="unit_complex", se2="unit_complex_xy", so3="wxyz", se3="wxyz_xyz")[code]

    # Features: rotation matrix rows and translation, so that both quaternion signs agree.
    def feats(T):
        m = T.as_matrix()
        return (m[:-1] if code in ("se2", "se3") else m).reshape(-1)

    def rfeats(p):
        m = lie.to_matrix(code, p)
        return (m[:-1] if code in ("se2", "se3") else m).reshape(-1)

    fdim = dict(so2=4, se2=6, so3=9, se3=12)[code]
    return Kind(
        cls, lie.PARAMS[code], lie.TANGENT[code],
        lambda p: group(**{field: np.asarray(p, F)}),
        feats, rfeats, _gen_lie(code), _lie_retract(code), fdim, lie=code,
    )


def _vec_kind(cls, n):
    return Kind(
        cls, n, n, lambda p: np.asarray(p, F), lambda x: x, lambda p: p,
        _gen_vec(n), _euclid, n, vector=True,
    )


def _pair_retract(p, d):
    return np.concatenate([_lie_retract("se2")(p[:4], d[2:5]), p[4:] + d[:2]])


KINDS = {
    "r1": _vec_kind(core.RealVectorVariable[1], 1),
    "r2": _vec_kind(core.RealVectorVariable[2], 2),
    "r3": _vec_kind(core.RealVectorVariable[3], 3),
    "q2": _vec_kind(Vec2, 2),
    "sc": Kind(ScalarVariable, 1, 1, lambda p: np.asarray(p[0], F), lambda x: x[None],
               lambda p: p, _gen_vec(1), _euclid, 1),
    "pt": Kind(PointVariable, 3, 3,
               lambda p: Point(a=np.asarray(p[:2], F), b=np.asarray(p[2], F)),
               lambda x: jnp.concatenate([x.b[None], x.a]),
               lambda p: np.array([p[2], p[0], p[1]]), _gen_vec(3), _euclid, 3),
    "dm": Kind(DictVariable, 5, 5,
               lambda p: {"a": np.asarray(p[0], F), "m": np.asarray(p[1:].reshape(2, 2), F)},
               lambda x: jnp.concatenate([x["m"].T.reshape(-1), x["a"][None]]),
               lambda p: np.array([p[1], p[3], p[2], p[4], p[0]]), _gen_vec(5), _euclid, 5),
    "so2": _lie_kind("so2", geometry.SO2Variable, jaxlie.SO2),
    "se2": _lie_kind("se2", geometry.SE2Variable, jaxlie.SE2),
    "so3": _lie_kind("so3", geometry.SO3Variable, jaxlie.SO3),
    "se3": _lie_kind("se3", geometry.SE3Variable, jaxlie.SE3),
    "s2": Kind(SphereVariable, 3, 2, lambda p: np.asarray(p, F), lambda x: x, lambda p: p,
               _gen_sphere, lambda p, d: sphere_retract(np, p, d), 3),
    "ps": Kind(PositiveVariable, 1, 1, lambda p: np.asarray(p[0], F), lambda x: x[None],
               lambda p: p, lambda s, y="n": np.exp(np.clip(nums(s, 1, y), -3, 3)),
               lambda p, d: p * np.exp(d[0]), 1),
    "pr": Kind(PairVariable, 6, 5,
               lambda p: {"T": jaxlie.SE2(np.asarray(p[:4], F)), "v": np.asarray(p[4:], F)},
               lambda x: jnp.concatenate([x["v"], x["T"].as_matrix()[:-1].reshape(-1)]),
               lambda p: np.concatenate([p[4:], lie.to_matrix("se2", p[:4])[:-1].reshape(-1)]),
               lambda s, y="n": np.concatenate([_gen_lie("se2")(s, y), nums(s + 1, 2, y)]),
               _pair_retract, 8),
}
KINDS["mx"] = Kind(
    ScaleVariable, 2, 2, lambda p: np.asarray(p, F), lambda x: x, lambda p: p,
    lambda s, y="n": np.exp(np.clip(nums(s, 2, y), -2, 2)), lambda p, d: p * np.exp(d[::-1]), 2)
KINDS["w2"] = _vec_kind(Vec2Again, 2)
KINDS["b2"] = _vec_kind(SubVec2, 2)
KINDS["e2"] = _lie_kind("se2", SubSE2, jaxlie.SE2)
KIND_OF_CLASS = {k.cls: c for c, k in KINDS.items()}
VECTOR_KINDS = ["r1", "r2", "r3", "q2", "b2", "w2"]
EUCLID_KINDS = ["r1", "r2", "r3", "q2", "b2", "w2", "sc", "pt", "dm"]
LIE_KINDS = ["so2", "se2", "so3", "se3"]
ALL_KINDS = list(KINDS)
for _n in (4, 5, 6, 8):  # only used where asked for
    KINDS["r%d" % _n] = _vec_kind(core.RealVectorVariable[_n], _n)
    KIND_OF_CLASS[KINDS["r%d" % _n].cls] = "r%d" % _n
    VECTOR_KINDS.append("r%d" % _n)


def flat_of(kind, value):
    """Flat float64 parameters of a value, read by field names (not by library code)."""
    kind = KINDS[kind].lie or kind
    if kind in VECTOR_KINDS or kind in ("s2", "mx"):
        a = [value]
    elif kind in ("sc", "ps"):
        a = [value]
    elif kind == "pt":
        a = [value.a, value.b]
    elif kind == "dm":
        a = [value["a"], value["m"]]
    elif kind == "so2":
        a = [value.unit_complex]
    elif kind == "se2":
        a = [value.unit_complex_xy]
    elif kind == "so3":
        a = [value.wxyz]
    elif kind == "se3":
        a = [value.wxyz_xyz]
    elif kind == "pr":
        a = [value["T"].unit_complex_xy, value["v"]]
    else:
        raise KeyError(kind)
    return np.concatenate([np.asarray(x, float).reshape(-1) for x in a])


def canon(kind, p):
    g = KINDS[kind].lie
    return lie.canon(g, p) if g else np.asarray(p, float)


def value_shape_ok(kind, value):
    """The value has exactly the structure and leaf shapes of the type's values."""
    ref = KINDS[kind].make(KINDS[kind].gen(3))
    same = jax.tree_util.tree_structure(value) == jax.tree_util.tree_structure(ref)
    return same and all(
        np.shape(a) == np.shape(b)
        for a, b in zip(jax.tree_util.tree_leaves(value), jax.tree_util.tree_leaves(ref))
    )


_POOL = {}


def pool_var(kind, i):
    """The i-th variable object of a kind; shared by the cases of one process."""
    p = _POOL.setdefault(kind, [])
    while len(p) <= i:
        p.append(KINDS[kind].cls())
    return p[i]


def make_vars(kinds, fresh=False):
    out, count = [], {}
    for k in kinds:
        i = count.get(k, 0)
        count[k] = i + 1
        out.append(KINDS[k].cls() if fresh else pool_var(k, i))
    return out


# --------------------------------------------------------------------------- factors


def _feats_of(variables, values):
    return [KINDS[KIND_OF_CLASS[type(v)]].feats(x) for v, x in zip(variables, values)]


@jdc.pytree_dataclass
class LinearFactor(core.FactorBase[Tuple[object, ...]]):
    mats: Tuple[Any, ...]
    bias: Any

    @overrides
    def compute_residual_vector(self, variable_values: Tuple[object, ...]) -> jnp.ndarray:
        f = _feats_of(self.variables, variable_values)
        return sum(m @ x for m, x in zip(self.mats, f)) - self.bias


LinearFactorFirst = LinearFactor


@jdc.pytree_dataclass
class LinearFactor(core.FactorBase[Tuple[object, ...]]):  # another type of the same name and fields
    mats: Tuple[Any, ...]
    bias: Any

    @overrides
    def compute_residual_vector(self, variable_values: Tuple[object, ...]) -> jnp.ndarray:
        f = _feats_of(self.variables, variable_values)
        return self.bias - 2.0 * sum(m @ x for m, x in zip(self.mats, f))


LinearFactorSecond, LinearFactor = LinearFactor, LinearFactorFirst


@jdc.pytree_dataclass
class CustomNoise(noises.NoiseModelBase):
    """A user-defined Gaussian: symmetric weights."""

    scale: Any
    weights: Any

    @overrides
    def get_residual_dim(self) -> int:
        return self.weights.shape[-1]

    @overrides
    def whiten_residual_vector(self, residual_vector: Any) -> Any:
        return self.scale * (self.weights @ residual_vector)

    @overrides
    def whiten_jacobian(self, jacobian: Any, residual_vector: Any) -> Any:
        return self.scale * (self.weights @ jacobian)


def nl_apply(xp, mode, z):
    if mode == 0:
        return z + 0.5 * xp.sin(z)
    if mode == 1:
        return z + 0.05 * z * z
    if mode == 2:
        return xp.tanh(0.25 * z) * 4.0
    if mode == 3:
        return xp.cos(0.5 * z) + z[::-1]
    if mode == 4:
        return 3.0 * xp.sin(1.5 * z)
    if mode == 6:  # Gauss-Newton overshoots away from zero
        return 2.0 * xp.arctan(2.0 * z)
    if mode == 7:
        return z + 1.5 * xp.sin(2.0 * z)
    return 0.5 * z + 0.3 * z * z


@jdc.pytree_dataclass
class NonlinearFactor(core.FactorBase[Tuple[object, ...]]):
    mats: Tuple[Any, ...]
    bias: Any
    mode: jdc.Static[int] = 0

    @overrides
    def compute_residual_vector(self, variable_values: Tuple[object, ...]) -> jnp.ndarray:
        f = _feats_of(self.variables, variable_values)
        z = sum(m @ x for m, x in zip(self.mats, f)) - self.bias
        return nl_apply(jnp, self.mode, z)


class TwoValues(NamedTuple):
    tail: object
    head: object


@jdc.pytree_dataclass
class NamedFactor(core.FactorBase[TwoValues]):
    ma: Any
    mb: Any
    bias: Any

    @overrides
    def compute_residual_vector(self, variable_values: TwoValues) -> jnp.ndarray:
        (a,) = _feats_of(self.variables[:1], [variable_values.tail])
        (b,) = _feats_of(self.variables[1:], [variable_values.head])
        return self.ma @ a - 2.0 * (self.mb @ b) + jnp.sin(self.ma @ a) - self.bias


@jdc.pytree_dataclass
class AnalyticFactor(core.FactorBase[Tuple[object, ...]]):
    """Vector variables; user-supplied Jacobian."""

    mats: Tuple[Any, ...]
    bias: Any

    @overrides
    def compute_residual_vector(self, variable_values: Tuple[object, ...]) -> jnp.ndarray:
        z = sum(m @ jnp.sin(x) for m, x in zip(self.mats, variable_values))
        return z - self.bias

    @overrides
    def compute_residual_jacobians(
        self, variable_values: Tuple[object, ...]
    ) -> Tuple[jnp.ndarray, ...]:
        return tuple(m * jnp.cos(x)[None, :] for m, x in zip(self.mats, variable_values))


@jdc.pytree_dataclass
class ScalarParamFactor(core.FactorBase[Tuple[object, ...]]):
    """Python scalar leaves (float or int)."""

    gain: Any
    shift: Any

    @overrides
    def compute_residual_vector(self, variable_values: Tuple[object, ...]) -> jnp.ndarray:
        f = jnp.concatenate(_feats_of(self.variables, variable_values))
        r = self.noise_model.get_residual_dim()
        return self.gain * jnp.resize(f, (r,)) - self.shift


@jdc.pytree_dataclass
class PytreeParamFactor(core.FactorBase[Tuple[object, ...]]):
    params: Dict[str, Any]

    @overrides
    def compute_residual_vector(self, variable_values: Tuple[object, ...]) -> jnp.ndarray:
        f = _feats_of(self.variables, variable_values)
        z = sum(m @ x for m, x in zip(self.params["mats"], f))
        return z * self.params["in"]["scale"] - self.params["in"]["off"]


FACTOR_TYPES = ["lin", "ln", "nl", "nt", "an", "sp", "pd", "pri", "bet"]


def _noise(kind, r, seed):
    """Noise model description: (object, reference whitening function of a raw residual)."""
    if kind == "d":
        s = 0.25 + np.abs(nums(seed, r))
        return noises.DiagonalGaussian(sqrt_precision_diagonal=np.asarray(s, F)), np.diag(s), None
    if kind == "f":
        m = np.tril(nums(seed, r * r).reshape(r, r)) * 0.5
        d = 0.5 + np.abs(nums(seed + 7, r))
        m[np.arange(r), np.arange(r)] = d
        if seed % 3 == 0:
            m = m.T.copy()
        elif seed % 5 == 1 and r > 1:  # any square root will do: also negative determinants
            m = m[::-1].copy()
        elif seed % 5 == 2:
            m = -m
        return noises.Gaussian(sqrt_precision_matrix=np.asarray(m, F)), m, None
    if kind == "c":
        B = nums(seed, r * r).reshape(r, r) * 0.25
        m = B @ B.T + np.diag(0.5 + np.abs(nums(seed + 7, r)))
        c = 0.5 + abs(nums(seed + 9, 1)[0])
        return CustomNoise(scale=float(c), weights=np.asarray(m, F)), c * m, None
    if kind in ("hd", "hf", "hc"):
        inner, W, _ = _noise(kind[1], r, seed)
        delta = 0.25 + abs(nums(seed + 11, 1)[0])
        if seed % 7 == 2:  # an integer threshold
            delta = 1 + int(delta)
        elif seed % 7 == 3:
            return noises.HuberWrapper(wrapped=inner, delta=np.asarray(delta, F)), W, delta
        return noises.HuberWrapper(wrapped=inner, delta=delta if seed % 7 == 2 else float(delta)), W, delta
    raise KeyError(kind)


def rescaled(noise, w):
    if isinstance(noise, noises.HuberWrapper):
        return noises.HuberWrapper(wrapped=rescaled(noise.wrapped, w), delta=noise.delta * w)
    if isinstance(noise, CustomNoise):
        return CustomNoise(scale=noise.scale * w, weights=noise.weights)
    return jax.tree_util.tree_map(lambda x: np.asarray(x * w, F), noise)


def huber_weight(W, delta, r):
    z = W @ r
    if delta is None:
        return z
    n = np.linalg.norm(z)
    return z if n < delta else z * np.sqrt(delta / n)


class RefFactor(NamedTuple):
    v: Tuple[int, ...]
    raw: Any  # list of flat values -> raw residual
    W: np.ndarray
    delta: Any
    kind: str
    rdim: int
    relative: Any = None  # flats, moved flats -> log(E(moved) E(flats)^-1), built-in Lie factors
    group: Any = None

    def whitened(self, flats):
        return huber_weight(self.W, self.delta, self.raw(flats))


def build_factor(tpl, f, vars_, kinds):
    """One library factor and its reference."""
    t, r, nk, static = tpl["t"], tpl["r"], tpl["n"], tpl.get("s", 0)
    v, s, y = tuple(f["v"]), f["s"], f.get("y", "n")
    ks = [KINDS[k] for k in tpl["k"]]
    vs = tuple(vars_[i] for i in v)
    assert [KIND_OF_CLASS[type(x)] for x in vs] == list(tpl["k"])
    if t in ("pri", "bet"):
        r = ks[0].local
    noise, W, delta = _noise(nk, r, s * 13 + 5)
    if tpl.get("w"):  # weak or strong noise scale
        W = W * tpl["w"]
        noise = rescaled(noise, tpl["w"])
        delta = None if delta is None else delta * tpl["w"]
    fl = [k.rfeats for k in ks]
    if t in ("lin", "ln", "nl", "an", "pd"):
        dims = [k.fdim for k in ks]
        mats = [nums(s * 31 + i, r * d, "n").reshape(r, d) for i, d in enumerate(dims)]
        # Keep the factor informative about every variable.
        for m in mats:
            k = min(m.shape)
            m[np.arange(k), np.arange(k)] += 1.0625
        bias = nums(s * 17 + 3, r, y)
        jm = tuple(np.asarray(m, F) for m in mats)
        jb = np.asarray(bias, F)
        # Factors that share a stack may be given different number types.
        if s % 11 == 4:
            bias = np.round(bias)
            jb = bias.astype(int)
        elif s % 11 == 5:
            bias = np.round(bias * 8) / 8
            jb = bias.astype(np.float32)
        elif s % 11 == 6:
            jb = jnp.asarray(jb)
    if t == "ln":
        fac = LinearFactorSecond(variables=vs, noise_model=noise, mats=jm, bias=jb)

        def raw(xs):
            return bias - 2.0 * sum(m @ g(x) for m, g, x in zip(mats, fl, xs))
    elif t == "lin":
        fac = LinearFactorFirst(variables=vs, noise_model=noise, mats=jm, bias=jb)

        def raw(xs):
            return sum(m @ g(x) for m, g, x in zip(mats, fl, xs)) - bias
    elif t == "nl":
        fac = NonlinearFactor(variables=vs, noise_model=noise, mats=jm, bias=jb, mode=static)

        def raw(xs):
            return nl_apply(np, static, sum(m @ g(x) for m, g, x in zip(mats, fl, xs)) - bias)
    elif t == "an":
        fac = AnalyticFactor(variables=vs, noise_model=noise, mats=jm, bias=jb)

        def raw(xs):
            return sum(m @ np.sin(x) for m, x in zip(mats, xs)) - bias
    elif t == "pd":
        scale, off = nums(s * 19, 1)[0] + 3.0, bias
        fac = PytreeParamFactor(
            variables=vs, noise_model=noise,
            params={"mats": list(jm), "in": {"scale": float(scale), "off": jb}},
        )

        def raw(xs):
            return sum(m @ g(x) for m, g, x in zip(mats, fl, xs)) * scale - off
    elif t == "nt":
        ma = nums(s * 31, r * ks[0].fdim).reshape(r, -1)
        mb = nums(s * 31 + 1, r * ks[1].fdim).reshape(r, -1)
        bias = nums(s * 17 + 3, r, y)
        fac = NamedFactor(
            variables=vs, noise_model=noise, ma=np.asarray(ma, F), mb=np.asarray(mb, F),
            bias=np.asarray(bias, F),
        )

        def raw(xs):
            a = ma @ fl[0](xs[0])
            return a - 2.0 * (mb @ fl[1](xs[1])) + np.sin(a) - bias
    elif t == "sp":
        gain = nums(s * 19, 1)[0] + 3.0
        shift = int(nums(s * 23, 1)[0] * 8) if s % 2 else float(nums(s * 23, 1)[0])
        if s % 5 == 0:
            gain = int(gain)
        fac = ScalarParamFactor(variables=vs, noise_model=noise, gain=gain, shift=shift)

        def raw(xs):
            return gain * np.resize(np.concatenate([g(x) for g, x in zip(fl, xs)]), (r,)) - shift
    elif t == "pri":
        g = ks[0].lie
        mu = ks[0].gen(s * 29 + 1, y)
        M = lie.to_matrix(g, mu)
        fac = geometry.PriorFactor.make(vs[0], ks[0].make(mu), noise)

        def raw(xs):
            return lie.log(g, lie.inv(g, lie.to_matrix(g, xs[0])) @ M)

        def E(xs):
            return lie.inv(g, lie.to_matrix(g, xs[0])) @ M
    elif t == "bet":
        g = ks[0].lie
        mu = ks[0].gen(s * 29 + 1, y)
        M = lie.to_matrix(g, mu)
        fac = geometry.BetweenFactor.make(vs[0], vs[1], ks[0].make(mu), noise)

        def E(xs):
            a, b = (lie.to_matrix(g, x) for x in xs)
            return lie.inv(g, lie.inv(g, a) @ b) @ M

        def raw(xs):
            return lie.log(g, E(xs))
    else:
        raise KeyError(t)
    relative = None
    if t in ("pri", "bet"):

        def relative(xs0, xs1):
            return lie.log(g, E(xs1) @ lie.inv(g, E(xs0)))

    return fac, RefFactor(v, raw, W, delta, t, r, relative, g if relative else None)


class Built(NamedTuple):
    kinds: Any
    vars: Any
    factors: Any
    refs: Any


def build(case, fresh=False):
    kinds = case["vars"]
    vars_ = make_vars(kinds, fresh)
    factors, refs = [], []
    for f in case["fs"]:
        fac, ref = build_factor(case["tpl"][f["p"]], f, vars_, kinds)
        factors.append(fac)
        refs.append(ref)
    return Built(kinds, vars_, factors, refs)


def flats_for(case, seed, style="n"):
    """Reference values of all variables for one assignment."""
    return [
        np.asarray(np.asarray(KINDS[k].gen(seed * 101 + i * 7, style), F), float)
        for i, k in enumerate(case["vars"])
    ]


def assignments_for(built, flats, order=None, used=None):
    """Library assignments holding the given values, stored in the given variable order."""
    idx = list(range(len(built.vars))) if order is None else list(order)
    if used is not None:
        idx = [i for i in idx if i in used]
    return core.VariableAssignments.make_from_dict(
        {built.vars[i]: KINDS[built.kinds[i]].make(flats[i]) for i in idx}
    )


def used_vars(case):
    return sorted({i for f in case["fs"] for i in f["v"]})


def permutation(seed, n):
    return list(np.random.RandomState(seed % (2**32)).permutation(n)) if seed else list(range(n))


_ROT = dict(so2=1, se2=1, so3=3, se3=3)


def residual_angle_ok(refs, flats, limit=2.8):
    """Lie residual rotations stay away from pi, where the logarithm jumps."""
    for ref in refs:
        if ref.group is not None:
            e = ref.raw([flats[i] for i in ref.v])
            if np.linalg.norm(e[-_ROT[ref.group]:]) > limit:
                return False
    return True

"""C24: noise models, residual-dependent ones included, are applied factor by factor."""
from typing import Any

import jax_dataclasses as jdc
import numpy as np
from jax import numpy as jnp
from scipy.optimize import linear_sum_assignment

from .. import gen, models as M
from ..cmp import close
from ..env import X64, Violation, require
from ..gen import SEEDS, st
from .c02 import dense

from jaxfg import core, noises

N_QUICK = 90
BUDGET_QUICK = 45
N_THOROUGH = 2500
TOL = 1e-7 if X64 else 3e-3
RULE = (
    "a residual-dependent noise model in a group of two or more factors, or in a graph of several groups, with "
    "whitened residuals that differ between the factors"
)


@jdc.pytree_dataclass
class CurvedNoise(noises.NoiseModelBase):
    """z = gain * arctan(scale * r), entry by entry; dz/dr is a function of z."""

    scale: Any
    gain: Any

    @M.overrides
    def get_residual_dim(self) -> int:
        return self.scale.shape[-1]

    @M.overrides
    def whiten_residual_vector(self, residual_vector: Any) -> Any:
        return self.gain * jnp.arctan(self.scale * residual_vector)

    @M.overrides
    def whiten_jacobian(self, jacobian: Any, residual_vector: Any) -> Any:
        return (self.gain * self.scale * jnp.cos(residual_vector / self.gain) ** 2)[:, None] * jacobian


@st.composite
def _cases(draw, tier):
    big = tier != "quick"
    g = draw(gen.graphs(max_factors=16 if big else 9, max_vars=8 if big else 5, max_tpl=5 if big else 4, grow=8, many=(15, 50)))
    g["x"] = [draw(SEEDS), draw(st.sampled_from("nnnzb"))]
    g["order"] = draw(SEEDS)
    g["onp"] = draw(st.booleans())
    g["curved"] = [draw(st.sampled_from([True, True, False])) for _ in g["tpl"]]
    g["arg"] = draw(st.sampled_from(["own", "half", "other"]))
    return g


def strategy(tier):
    return _cases(tier)


def whiten(noise, W, delta, r):
    if isinstance(noise, CurvedNoise):
        return float(noise.gain) * np.arctan(np.asarray(noise.scale, float) * r)
    return M.huber_weight(W, delta, r)


def whiten_blocks(noise, W, delta, J, z):
    """dz/dr times J where the whitened residual is z."""
    if isinstance(noise, CurvedNoise):
        s, g = np.asarray(noise.scale, float), float(noise.gain)
        return (g * s * np.cos(z / g) ** 2)[:, None] * J
    out = W @ J
    if delta is not None:
        n = np.linalg.norm(z)
        if n >= delta:
            out = out * (delta / n)
    return out


def check(case, info):
    b = M.build(case)
    used = M.used_vars(case)
    order = M.permutation(case["order"], len(b.vars))
    flats = M.flats_for(case, *case["x"])
    if not M.residual_angle_ok(b.refs, flats):
        info.label("skipped: rotation near pi")
        return
    factors = []
    for f, fc, ref in zip(b.factors, case["fs"], b.refs):
        if case["curved"][fc["p"]]:
            s = 0.25 + np.abs(M.nums(fc["s"] * 3 + 1, ref.rdim))
            f = jdc.replace(f, noise_model=CurvedNoise(scale=np.asarray(s, M.F), gain=0.5 + abs(float(M.nums(fc["s"] + 9, 1)[0]))))
        factors.append(f)
    graph = core.StackedFactorGraph.make(factors, use_onp=case["onp"])
    a = M.assignments_for(b, flats, order, used)
    lay = graph.local_storage_layout
    lab = gen.graph_labels(case, info)
    # Each factor alone: raw residual from the reference, Jacobians from the single-factor path.
    z, blocks, near = [], [], False
    for f, ref in zip(factors, b.refs):
        raw = ref.raw([flats[i] for i in ref.v])
        z.append(whiten(f.noise_model, ref.W, ref.delta, raw))
        Js = f.compute_residual_jacobians(f.get_variable_values_from_assignments(a))
        require(len(Js) == len(ref.v), "%d Jacobians for %d variables", len(Js), len(ref.v))
        J = np.zeros((ref.rdim, lay.dim))
        for i, m in zip(ref.v, Js):
            m = np.asarray(m, float)
            require(m.shape == (ref.rdim, M.KINDS[b.kinds[i]].local), "Jacobian block of shape %s", m.shape)
            j = lay.index_from_variable[b.vars[i]]
            J[:, j:j + m.shape[1]] += m
        blocks.append(J)
        if ref.delta is not None and not isinstance(f.noise_model, CurvedNoise):
            near |= abs(np.linalg.norm(ref.W @ raw) - ref.delta) < (1e-6 if X64 else 1e-2) * ref.delta
    if near:
        info.label("skipped: at a Huber threshold")
        return
    res = graph.compute_whitened_residual_vector(a)
    got = np.asarray(res, float)
    total = sum(r.rdim for r in b.refs)
    require(got.shape == (total,), "residual vector shape %s, expected %s", got.shape, (total,))
    J1 = dense(graph.compute_whitened_residual_jacobian(a, res))
    scale = max(1.0, float(max(np.max(np.abs(x)) for x in flats)) * 4, float(np.max(np.abs(J1))) if np.all(np.isfinite(J1)) else 1.0)
    owner = [(k, e) for k, ref in enumerate(b.refs) for e in range(ref.rdim)]
    want = np.concatenate([
        np.column_stack([zk, whiten_blocks(f.noise_model, ref.W, ref.delta, J, zk)])
        for f, ref, J, zk in zip(factors, b.refs, blocks, z)])
    have = np.column_stack([got, J1])
    if not np.all(np.isfinite(have)):
        raise Violation("residual or Jacobian not finite")
    d = np.max(np.abs(have[:, None, :] - want[None, :, :]), axis=2)
    ri, ci = linear_sum_assignment(np.minimum(d, 1e6))
    if d[ri, ci].max() > TOL * scale:
        k = int(np.argmax(d[ri, ci]))
        raise Violation("row %d of [residual | Jacobian] is that of no factor (best difference %.3g)\n got %s\n want %s"
                        % (ri[k], d[ri, ci].max(), have[ri[k]], want[ci[k]]))
    info.inner += 1
    # Equal rows can be matched in several ways; everything below needs the true owners.
    at = {owner[c]: r for r, c in zip(ri, ci)}
    unique = all(np.sum(d[r] <= TOL * scale * 10) == 1 for r in range(total))
    if case["arg"] != "own" and unique:
        # Whitening of Jacobians uses the residuals that are handed in, each factor its own.
        z2 = [zk * 0.5 if case["arg"] == "half" else np.roll(zk, 1) * 0.75 + 0.125 for zk in z]
        if any(ref.delta is not None and abs(np.linalg.norm(x) - ref.delta) < 1e-2 * ref.delta for ref, x in zip(b.refs, z2)):
            info.label("second residual skipped: at a Huber threshold")
        else:
            vec = np.zeros(total)
            for (k, e), r in at.items():
                vec[r] = z2[k][e]
            J2 = dense(graph.compute_whitened_residual_jacobian(a, jnp.asarray(vec, M.F)))
            want2 = np.zeros_like(J2)
            for k, (f, ref, J) in enumerate(zip(factors, b.refs, blocks)):
                w = whiten_blocks(f.noise_model, ref.W, ref.delta, J, z2[k])
                for e in range(ref.rdim):
                    want2[at[k, e]] = w[e]
            close("Jacobian for another residual vector", J2, want2, rtol=TOL, scale=scale)
            info.label("other residual vector")
    curved = any(isinstance(f.noise_model, CurvedNoise) for f in factors)
    info.nontrivial = curved and (lab["stacked"] or lab["groups"] > 1) and len(set(np.round(got, 8))) > 1

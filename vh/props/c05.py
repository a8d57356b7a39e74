"""C05: manifold retraction of assignments against the per-type reference."""
import numpy as np

from .. import gen, models as M
from ..cmp import close
from ..env import X64, require
from ..gen import st

from jaxfg import core

N_QUICK = 140
BUDGET_QUICK = 40
N_THOROUGH = 4000
RULE = "two or more variables, a nonzero delta, and at least two variables of one type or two types"
TOL = 1e-7 if X64 else 2e-4


@st.composite
def _cases(draw, tier):
    vs = draw(st.lists(st.sampled_from(M.ALL_KINDS), min_size=1, max_size=10 if tier != "quick" else 6))
    if draw(st.booleans()):
        pal = draw(st.lists(st.sampled_from(M.ALL_KINDS), min_size=1, max_size=2, unique=True))
        vs = [pal[M.ALL_KINDS.index(k) % len(pal)] for k in vs]
    if draw(st.integers(0, 9)) == 1:
        vs = (vs * 8)[: draw(st.integers(7, 40))]
    dt = draw(st.sampled_from(["", "", "", "int", "f32"]))
    if dt == "int":  # jaxlie takes no integers
        vs = [k if k in M.EUCLID_KINDS or k == "mx" else "r2" for k in vs]
    return dict(
        raw=draw(st.integers(0, 3)) == 1, dt=dt, vars=vs, o1=draw(gen.SEEDS), o2=draw(gen.SEEDS),
        x=[[draw(gen.SEEDS), draw(gen.SEEDS), draw(st.sampled_from("nnntzh"))] for _ in range(3)],
    )


def strategy(tier):
    return _cases(tier)


def deltas_for(kinds, seed, style):
    return [nums_delta(k, seed * 57 + 3 * i, style) for i, k in enumerate(kinds)]


def nums_delta(kind, seed, style):
    d = M.nums(seed, M.KINDS[kind].local, "n" if style == "h" else style)
    if style == "h" and kind not in ("ps", "mx"):  # large: rotations of several turns
        d = d * 5
    return d * (0.75 if kind in ("so3", "se3", "s2") else 1.0)


def local_assignments(vars_, kinds, order, deltas, dtype=M.F):
    lay = core.StorageLayout.make([vars_[i] for i in order], local=True)
    storage = np.zeros(lay.dim, dtype)
    for i in order:
        s = lay.index_from_variable[vars_[i]]
        storage[s:s + len(deltas[i])] = deltas[i]
    return core.VariableAssignments(storage=storage, storage_layout=lay)


def check(case, info):
    kinds = case["vars"]
    n = len(kinds)
    vars_ = M.make_vars(kinds)
    o1, o2 = M.permutation(case["o1"], n), M.permutation(case["o2"], n)
    if [kinds[i] for i in o1] != [kinds[i] for i in o2] or o1 != o2:
        info.label("different storage orders")
    for seed, dseed, style in case["x"]:
        info.inner += 1
        flats = M.flats_for(case, seed)
        b = M.Built(kinds, vars_, None, None)
        a = M.assignments_for(b, flats, o1)
        if case.get("raw"):
            a = core.VariableAssignments(storage=np.array(a.storage), storage_layout=a.storage_layout)
        deltas = deltas_for(kinds, dseed, style)
        dt = case.get("dt", "")
        dtype = dict(int=int, f32=np.float32).get(dt, M.F)
        if dt:  # deltas of another number type than the values
            deltas = [np.asarray(np.asarray(np.round(x) if dtype is int else x, dtype), float) for x in deltas]
            info.label("deltas of type " + dt)
        tol = max(TOL, 2e-5) if dt == "f32" else TOL
        d = local_assignments(vars_, kinds, o2, deltas, dtype)
        before = np.array(a.storage), np.array(d.storage)
        out = a.manifold_retract(d)
        require(out.storage_layout == a.storage_layout, "retraction changed the layout")
        require(
            np.array_equal(before[0], np.array(a.storage)) and np.array_equal(before[1], np.array(d.storage)),
            "retraction changed its inputs",
        )
        for i, k in enumerate(kinds):
            val = out.get_value(vars_[i])
            got = M.flat_of(k, val)
            want = M.KINDS[k].retract(flats[i], deltas[i])
            close("variable %d (%s)" % (i, k), M.canon(k, got), M.canon(k, want), rtol=tol)
            if style == "z":
                close("zero delta, variable %d (%s)" % (i, k), M.canon(k, got), M.canon(k, flats[i]), rtol=tol)
            if M.KINDS[k].lie in ("so2", "se2"):
                close("unit complex norm", np.linalg.norm(got[:2]), 1.0, rtol=tol)
            elif M.KINDS[k].lie in ("so3", "se3"):
                close("unit quaternion norm", np.linalg.norm(got[:4]), 1.0, rtol=tol)
            # The type's own retraction is the same map.
            own = M.KINDS[k].cls.manifold_retract(M.KINDS[k].make(flats[i]), np.asarray(deltas[i], M.F))
            close("own retraction of variable %d (%s)" % (i, k), M.canon(k, M.flat_of(k, own)), M.canon(k, want), rtol=tol)
        if n > 1 and any(np.any(x != 0) for x in deltas):
            info.nontrivial = True
    if len(set(kinds)) < n:
        info.label("several variables of one type")
    if len(set(kinds)) > 1:
        info.label("several types")

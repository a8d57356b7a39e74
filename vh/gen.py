"""Hypothesis strategies for graph cases (JSON-able)."""
from . import env

env.import_hypothesis()
import numpy as np  # noqa: E402
from hypothesis import strategies as st  # noqa: E402

from . import models as M  # noqa: E402

SEEDS = st.integers(0, 2**20)


@st.composite
def graphs(
    draw,
    kinds=None,
    types=None,
    noises=("d", "f", "hd", "hf", "c", "hc"),
    max_kinds=3,
    max_vars=6,
    max_tpl=4,
    max_factors=10,
    max_arity=3,
    max_r=3,
    styles=("n", "n", "n", "z", "b", "o"),
    anchors=False,
    min_vars=1,
    static=True,
    min_tpl=0,
    grow=0,
    many=(30, 120),
):
    """grow=k: one case in k is wide (more types, arguments and dimensions), one has many
    variables and factors."""
    kinds = M.ALL_KINDS if kinds is None else kinds
    mode = draw(st.integers(1, grow)) if grow else grow
    if mode == 2:
        max_kinds, max_arity, max_r = max_kinds + 2, max_arity + 2, 7
        max_tpl, max_vars = max_tpl + 2, max_vars + 3
    types = M.FACTOR_TYPES if types is None else types
    palette = draw(st.lists(
        st.sampled_from(kinds), min_size=min(draw(st.integers(1, max_kinds)), len(set(kinds))),
        max_size=max_kinds, unique=True,
    ))
    vs = draw(st.lists(st.sampled_from(palette), min_size=min_vars, max_size=max_vars))
    if draw(st.integers(0, 2)):  # usually every type of the palette, and two of one
        vs = (vs + [k for k in palette if k not in vs])[:max(max_vars, len(palette))]
        if len(vs) < 3 <= max_vars:
            vs.append(vs[0])
    present = sorted(set(vs), key=vs.index)
    by_kind = {k: [i for i, x in enumerate(vs) if x == k] for k in present}
    lies = [k for k in present if M.KINDS[k].lie]
    vecs = [k for k in present if k in M.VECTOR_KINDS]
    usable = [
        t for t in types
        if not (t in ("pri", "bet") and not lies) and not (t == "an" and not vecs)
    ]
    tpl, fs = [], []
    if anchors:
        for k in present:
            t = "pri" if M.KINDS[k].lie and "pri" in types and draw(st.booleans()) else "lin"
            tpl.append(dict(t=t, k=[k], r=M.KINDS[k].fdim, n=draw(st.sampled_from(["d", "f"])), s=0))
            for i in by_kind[k]:
                fs.append(dict(p=len(tpl) - 1, v=[i], s=draw(SEEDS), y=draw(st.sampled_from(styles))))
    n0 = len(tpl)
    if usable:
        for _ in range(draw(st.integers(min_tpl if anchors else 1, max_tpl))):
            t = draw(st.sampled_from(usable))
            if t == "pri":
                ks = [draw(st.sampled_from(lies))]
            elif t == "bet":
                ks = [draw(st.sampled_from(lies))] * 2
            elif t == "nt":
                ks = [draw(st.sampled_from(present)) for _ in range(2)]
            else:
                pool = vecs if t == "an" else present
                ks = [draw(st.sampled_from(pool)) for _ in range(draw(st.integers(1, max_arity)))]
            tpl.append(dict(
                t=t, k=ks, r=draw(st.integers(1, max_r)), n=draw(st.sampled_from(list(noises))),
                s=draw(st.integers(0, 5)) if t == "nl" and static else 0,
            ))
    if len(tpl) > n0:
        for _ in range(draw(st.integers(1, max_factors))):
            p = draw(st.integers(n0, len(tpl) - 1))
            fs.append(dict(
                p=p, v=[draw(st.sampled_from(by_kind[k])) for k in tpl[p]["k"]],
                s=draw(SEEDS), y=draw(st.sampled_from(styles)),
            ))
    if mode == 3 and fs:
        rs = np.random.RandomState(draw(SEEDS))
        for _ in range(draw(st.integers(0, many[0]))):
            k = vs[rs.randint(len(vs))]
            by_kind[k].append(len(vs))
            vs.append(k)
            if anchors:
                fs.append(dict(p=present.index(k), v=[len(vs) - 1], s=int(rs.randint(2**20)), y="n"))
        for _ in range(draw(st.integers(1, many[1]))):
            if len(tpl) == n0:
                break
            p = n0 + int(rs.randint(len(tpl) - n0)) if rs.randint(4) else n0
            fs.append(dict(
                p=p, v=[by_kind[k][rs.randint(len(by_kind[k]))] for k in tpl[p]["k"]],
                s=int(rs.randint(2**20)), y=styles[rs.randint(len(styles))],
            ))
    if fs and len(fs) > 1 and draw(st.integers(0, 5)) == 0:
        fs.append(dict(fs[draw(st.integers(0, len(fs) - 1))]))  # an exact repeat
    if not anchors and len(fs) > 1 and draw(st.booleans()):
        fs = draw(st.permutations(fs))
    return dict(vars=vs, tpl=tpl, fs=list(fs))


def graph_labels(case, info):
    """Classification common to graph-based properties. Returns counters used in rules."""
    groups = {}
    for f in case["fs"]:
        groups.setdefault(f["p"], []).append(f)
    stacked = any(len(g) > 1 for g in groups.values())
    kinds = {case["vars"][i] for f in case["fs"] for i in f["v"]}
    twice = any(len(set(f["v"])) < len(f["v"]) for f in case["fs"])
    if stacked:
        info.label("stacked factors")
    if max([0] + [len(g) for g in groups.values()]) > 16:
        info.label("more than 16 factors in a group")
    if any(len(f["v"]) > 3 for f in case["fs"]):
        info.label("factor of more than three variables")
    if len(groups) > 1:
        info.label("several factor groups")
    if len(kinds) > 1:
        info.label("several variable types")
    if twice:
        info.label("variable used twice by a factor")
    for t in {case["tpl"][p]["t"] for p in groups}:
        info.label("factor " + t)
    for n in {case["tpl"][p]["n"] for p in groups}:
        info.label("noise " + n)
    for k in kinds:
        info.label("variable " + k)
    return dict(stacked=stacked, groups=len(groups), kinds=len(kinds), twice=twice)

"""C20: the g2o loader against the written file."""
import contextlib
import importlib.util
import io
import os
import shutil
import tempfile

import numpy as np

from .. import env, gen, lie, models as M
from ..cmp import close
from ..env import X64, Violation, require
from ..gen import st

N_QUICK = 240
BUDGET_QUICK = 40
N_THOROUGH = 1500
X32_WORKERS = 1
RULE = "two or more edges with different vertices and an information matrix that is not diagonal"
TOL = 1e-6 if X64 else 1e-3


SIX = " 1 0 0 0 0 0 1 0 0 0 0 1 0 0 0 1 0 0 1 0 1"
BAD = [
    "VERTEX_XY 0 1 2", "EDGE_SE2_XY 0 1 2 3", "FIX 0", "PARAMS_SE3OFFSET 0 0 0 0 0 0 0 1", "VERTEX_SE3 0 1 2 3 0 0 0",
    "EDGE_SE3 0 1 0 0 0 0 0 0", "vertex_se2 0 0 0 0", "VERTEX_TRACKXYZ 3 1 2 3", "EQUIV 0 1", "# a comment", "EDGE_BEARING_SE2_XY 0 1 0.5 1",
    # The right number of fields, at a place where a known tag would be accepted.
    "VERTEX_SE2X {n} 0 0 0", "VERTEX_SE3:QUATX {n} 0 0 0 0 0 0 1", "VERTEX_SE3 {n} 0 0 0 0 0 0 1", "EDGE_SE2X 0 1 0 0 0 1 0 0 1 0 1",
    "EDGE_SE3 0 1 0 0 0 0 0 0 1" + SIX, "EDGE_SE3:QUAT2 0 1 0 0 0 0 0 0 1" + SIX, "EDGE_SE3_PRIOR 0 1 0 0 0 0 0 0 1" + SIX,
    "VERTEX_SE2X 0 0 0 0", "EDGE_SE2: 0 1 0 0 0 1 0 0 1 0 1", "EDGE_SE3:EULER 0 1 0 0 0 0 0 0", "VERTEX 0 0 0 0",
]


@st.composite
def _cases(draw, tier):
    big = tier != "quick"
    n = draw(st.integers(2, 12 if big else 8))
    ed = draw(st.lists(st.tuples(st.integers(0, n - 1), st.integers(0, n - 1), gen.SEEDS), min_size=1, max_size=16 if big else 10))
    long = draw(st.integers(0, 11)) == 7
    if long:
        n = draw(st.integers(60, 2000 if big else 400))
        ed = []
    return dict(
        g=draw(st.sampled_from(["se2", "se3"])), n=n, s=draw(gen.SEEDS), e=[list(x) for x in ed if x[0] != x[1]] or [[0, 1, 5]],
        long=draw(gen.SEEDS) if long else None,
        inter=draw(st.booleans()), fmt=draw(st.sampled_from(["r", "e", "sp", "f", "int"])),
        bad=draw(st.sampled_from(BAD)) if draw(st.integers(0, 3)) == 3 else "", at=draw(st.integers(0, 2)),
        scale=draw(st.sampled_from([1.0, 1.0, 1e-2, 1e3])),
        diag=draw(st.integers(0, 4)) == 4, nl=draw(st.booleans()),
    )


def strategy(tier):
    return _cases(tier)


_MOD = []


def loader():
    if not _MOD:
        spec = importlib.util.spec_from_file_location("g2o_utils", os.path.join(env.REPO, "scripts", "_g2o_utils.py"))
        m = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(m)
        _MOD.append(m)
    return _MOD[0]


def long_edges(seed, n):
    R = np.random.RandomState(seed)
    e = [[i, i + 1, int(R.randint(10**6))] for i in range(n - 1)]
    return e + [[int(a), int(b), int(R.randint(10**6))] for a, b in R.randint(0, n, (n // 3, 2)) if a != b]


def info_matrix(seed, n, diag):
    B = np.tril(M.nums(seed, n * n).reshape(n, n)) * 0.5
    B[np.arange(n), np.arange(n)] = 0.5 + np.abs(M.nums(seed + 1, n))
    I = B @ B.T * 4
    return np.diag(np.diag(I)) if diag else I


def numbers(vals, fmt):
    if fmt == "int":  # numbers such as 3 and -2 are written without a point
        return " ".join("%d" % v if float(v) == int(v) else repr(float(v)) for v in vals)
    if fmt == "f":
        return " ".join("%.9f" % v for v in vals)
    if fmt == "e":
        return " ".join("%.17e" % v for v in vals)
    return ("   " if fmt == "sp" else " ").join(repr(float(v)) for v in vals)


def pose_fields(g, p):
    if g == "se2":
        return [p[2], p[3], np.arctan2(p[1], p[0])]
    return [p[4], p[5], p[6], p[1], p[2], p[3], p[0]]


def check(case, info):
    import jax

    g, n = case["g"], case["n"]
    if case.get("long") is not None:
        case = dict(case, e=long_edges(case["long"], n))
    K = M.KINDS[g]
    poses = [K.gen(case["s"] + 3 * i) for i in range(n)]
    if case["fmt"] == "int":
        for p in poses[:3]:
            p[-2:] = np.round(p[-2:])
    meas = [K.gen(s) for _, _, s in case["e"]]
    infos = [info_matrix(s + 9, K.local, case["diag"]) * case.get("scale", 1.0) for _, _, s in case["e"]]
    vtag, etag = ("VERTEX_SE2", "EDGE_SE2") if g == "se2" else ("VERTEX_SE3:QUAT", "EDGE_SE3:QUAT")
    verts = ["%s %d %s" % (vtag, i, numbers(pose_fields(g, p), case["fmt"])) for i, p in enumerate(poses)]
    edges = [
        "%s %d %d %s" % (etag, a, b, numbers(list(pose_fields(g, m)) + list(I[np.triu_indices(K.local)]), case["fmt"]))
        for (a, b, _), m, I in zip(case["e"], meas, infos)
    ]
    lines = list(verts) + edges
    if case["inter"] and n <= 20:  # an edge may follow as soon as its vertices are known
        lines = list(verts)
        for (a, b, _), e in zip(reversed(case["e"]), reversed(edges)):
            lines.insert(max(lines.index(verts[a]), lines.index(verts[b])) + 1, e)
    if case["bad"]:
        fits = "{n}" in case["bad"] or len(case["bad"].split()) > 10
        lines.insert([0, len(lines) // 2, len(lines)][2 if fits else case.get("at", 1)], case["bad"].format(n=n))
    tmp = tempfile.mkdtemp(prefix="vh-g2o-")
    try:
        path = os.path.join(tmp, "graph.g2o")
        with open(path, "w") as f:
            f.write("\n".join(lines) + ("\n" if case["nl"] else ""))
        import pathlib

        with contextlib.redirect_stderr(io.StringIO()):
            if case["bad"]:
                info.label("unknown line")
                try:
                    loader().parse_g2o(pathlib.Path(path))
                except Exception:
                    info.inner += 1
                    return
                raise Violation("a line of unknown type was accepted: %r" % case["bad"])
            data = loader().parse_g2o(pathlib.Path(path))
    finally:
        shutil.rmtree(tmp)
    info.label("file " + g)
    vs = list(data.initial_poses)
    require(len(vs) == n, "%d variables, expected %d", len(vs), n)
    require(all(type(v) is K.cls for v in vs), "variable type")
    step = max(1, n // 40)  # long files: values are compared at some places, vertices and counts at all
    require(all(type(data.initial_poses[v]) is type(data.initial_poses[vs[0]]) for v in vs), "pose types")
    for i, v in list(enumerate(vs))[::step]:
        close("initial pose %d" % i, M.canon(g, M.flat_of(g, data.initial_poses[v])), M.canon(g, poses[i]), rtol=TOL)
    index = {v: i for i, v in enumerate(vs)}
    pri = [f for f in data.factors if len(f.variables) == 1]
    bet = [f for f in data.factors if len(f.variables) == 2]
    require(len(pri) == 1 and len(bet) == len(edges) and len(data.factors) == len(edges) + 1,
            "%d unary and %d binary factors, expected 1 and %d", len(pri), len(bet), len(edges))
    # Probe points at which no residual rotation is near pi are found per edge.
    flats = [p for p in poses]

    def at(f):
        return np.asarray(f.compute_residual_vector(f.build_variable_value_tuple(
            tuple(K.make(flats[index[v]]) for v in f.variables))), float)

    def whitening(f):
        eye = np.eye(K.local)
        return np.stack([np.asarray(f.noise_model.whiten_residual_vector(np.asarray(c, M.F)), float) for c in eye], axis=1)

    left = set(range(len(edges)))
    by_pair = {}
    for k, (a, b, _) in enumerate(case["e"]):
        by_pair.setdefault((a, b), []).append(k)
    pairs = sorted(tuple(index[v] for v in f.variables) for f in bet)
    require(pairs == sorted((a, b) for a, b, _ in case["e"]), "the factors join other vertices than the edges of the file")
    estep = max(1, len(bet) // 60)
    if step > 1:
        info.label("long file")
    for f in bet[::estep] + (bet[-3:] if estep > 1 else []):
        ia, ib = (index[v] for v in f.variables)
        W = whitening(f)
        P = W.T @ W
        r = at(f)
        ok = None
        why = []
        for k in by_pair[ia, ib]:
            a, b, _ = case["e"][k]
            if k not in left:
                continue
            E = lie.inv(g, lie.inv(g, lie.to_matrix(g, flats[a])) @ lie.to_matrix(g, flats[b])) @ lie.to_matrix(g, meas[k])
            near = lie.angle(g, E) > 2.9
            d1 = 0.0 if near else float(np.max(np.abs(lie.log(g, E) - r)))
            d2 = float(np.max(np.abs(P - infos[k])))
            Td = float(np.max(np.abs(M.canon(g, M.flat_of(g, f.T_a_b)) - M.canon(g, meas[k])))) if hasattr(f, "T_a_b") else 0.0
            why.append((k, d1, d2, Td))
            if d1 <= TOL * 10 and d2 <= TOL * max(1.0, np.max(infos[k])) * 10 and Td <= TOL * 10:
                ok = k
                break
        if ok is None:
            raise Violation("factor between vertices %d and %d matches no edge of the file; (edge, residual, information, measurement) differences: %s" % (ia, ib, why))
        if estep == 1:
            left.remove(ok)
        info.inner += 1
    f = pri[0]
    require(f.variables[0] is vs[0], "the prior is not on the first vertex")
    close("prior residual at the initial pose", at(f), np.zeros(K.local), rtol=TOL)
    W = whitening(f)
    require(np.linalg.matrix_rank(W) == K.local, "the prior does not anchor all directions")
    offd = any(np.any(I - np.diag(np.diag(I))) for I in infos)
    info.nontrivial = len(edges) >= 2 and offd and len({tuple(x[:2]) for x in case["e"]}) >= 2

"""C04: storage layouts against the partition rules."""
from .. import gen, models as M
from ..env import require
from ..gen import st

from jaxfg import core

N_QUICK = 800
BUDGET_QUICK = 20
N_THOROUGH = 20000
X32_WORKERS = 1
WORKERS = 4
RULE = "two or more variable types with two or more variables of one type, interleaved or not"


@st.composite
def _cases(draw, tier):
    vs = draw(st.lists(st.sampled_from(M.ALL_KINDS), min_size=1, max_size=24 if tier != "quick" else 14))
    if draw(st.booleans()):
        pal = draw(st.lists(st.sampled_from(M.ALL_KINDS), min_size=1, max_size=3, unique=True))
        vs = [pal[M.ALL_KINDS.index(k) % len(pal)] for k in vs]
    if draw(st.integers(0, 9)) == 1:
        vs = (vs * 8)[: draw(st.integers(8, 80))]
    fs = draw(st.lists(st.lists(st.integers(0, len(vs) - 1), min_size=1, max_size=3), min_size=1, max_size=8))
    return dict(vars=vs, perm=draw(gen.SEEDS), fs=fs, it=draw(st.sampled_from(["list", "gen", "keys"])))


def strategy(tier):
    return _cases(tier)


def check_layout(layout, order, vars_, kinds, local):
    size = {i: (M.KINDS[kinds[i]].local if local else M.KINDS[kinds[i]].dim) for i in order}
    require(layout.local_flag == local, "local_flag")
    require(layout.dim == sum(size.values()), "dim %s, expected %s", layout.dim, sum(size.values()))
    require(set(layout.index_from_variable) == {vars_[i] for i in order}, "indexed variables")
    require(list(layout.get_variables()) == list(layout.index_from_variable), "get_variables")
    cover = []
    for i in order:
        s = layout.index_from_variable[vars_[i]]
        cover += list(range(s, s + size[i]))
    require(sorted(cover) == list(range(layout.dim)), "blocks do not partition the vector: %s", sorted(cover))
    pos = [layout.index_from_variable[v] for v in layout.get_variables()]
    require(pos == sorted(pos), "variables are not in ascending storage order: %s", pos)
    tpos = [layout.index_from_variable_type[t] for t in layout.get_variable_types()]
    require(tpos == sorted(tpos), "types are not in ascending storage order: %s", tpos)
    ks = {kinds[i] for i in order}
    require({M.KIND_OF_CLASS[t] for t in layout.get_variable_types()} == ks, "types")
    require(set(layout.count_from_variable_type) == {M.KINDS[k].cls for k in ks}, "counted types")
    for k in ks:
        cls = M.KINDS[k].cls
        mem = [i for i in order if kinds[i] == k]
        require(layout.count_from_variable_type[cls] == len(mem), "count of %s", k)
        at = layout.index_from_variable_type[cls]
        for i in mem:  # first-seen order, contiguous
            require(layout.index_from_variable[vars_[i]] == at, "variable %d not at %d", i, at)
            at += size[i]


def check(case, info):
    kinds, n = case["vars"], len(case["vars"])
    vars_ = M.make_vars(kinds)
    order = M.permutation(case["perm"], n)
    make = {
        "list": lambda o: [vars_[i] for i in o],
        "gen": lambda o: (vars_[i] for i in o),
        "keys": lambda o: {vars_[i]: i for i in o}.keys(),
    }[case["it"]]
    lays = {}
    for local in (False, True):
        lay = core.StorageLayout.make(make(order), local=local)
        info.inner += 1
        check_layout(lay, order, vars_, kinds, local)
        again = core.StorageLayout.make(make(order), local=local)
        require(lay == again and hash(lay) == hash(again), "equal inputs give unequal layouts")
        other = list(reversed(order))
        if n > 1:
            lay2 = core.StorageLayout.make(make(other), local=local)
            check_layout(lay2, other, vars_, kinds, local)
            same = dict(lay.index_from_variable) == dict(lay2.index_from_variable)
            require(same or lay != lay2, "different layouts compare equal")
        lays[local] = lay
    require(lays[False] != lays[True], "local and global layouts compare equal")
    require(core.StorageLayout.make(make(order)) == lays[False], "the default is not a global layout")
    # A graph's layouts.
    facs, seen = [], []
    for f in case["fs"]:
        tpl = dict(t="lin", k=[kinds[i] for i in f], r=1, n="d")
        facs.append(M.build_factor(tpl, dict(v=f, s=1), vars_, kinds)[0])
        seen += [i for i in dict.fromkeys(f) if i not in seen]
    g = core.StackedFactorGraph.make(facs)
    check_touched(g, seen, vars_, kinds)
    info.label("graph layouts")
    if len(set(kinds)) > 1 and len(set(kinds)) < n:
        info.nontrivial = True


def check_touched(g, seen, vars_, kinds):
    for lay, local in ((g.storage_layout, False), (g.local_storage_layout, True)):
        require(set(lay.get_variables()) == {vars_[i] for i in seen}, "graph layout variables")
        check_layout(lay, sorted(seen, key=lambda i: lay.index_from_variable[vars_[i]]), vars_, kinds, local)
    require(
        list(g.storage_layout.get_variables()) == list(g.local_storage_layout.get_variables()),
        "the two layouts list the variables in different orders",
    )
    require(set(g.get_variables()) == {vars_[i] for i in seen}, "graph.get_variables")

"""C03: variable assignments against a dictionary model, over operation histories."""
import jax
import numpy as np
from jax import numpy as jnp

from .. import gen, lie, models as M
from ..cmp import close
from ..env import X64, require
from ..gen import st

from jaxfg import core

N_QUICK = 160
BUDGET_QUICK = 45
N_THOROUGH = 3000
RULE = (
    "the history contains at least one set or layout change on an object with two or more variables, "
    "after which all variables of all objects are read"
)
TOL = 1e-12 if X64 else 1e-6

DEFAULTS = {
    "r1": [0.0], "r2": [0.0] * 2, "r3": [0.0] * 3, "q2": [0.5, -0.25], "b2": [0.0] * 2, "e2": [1.0, 0, 0, 0], "sc": [1.5],
    "pt": [1.0, 2.0, -3.0], "dm": [0.25, 1.0, 2.0, 3.0, 4.0], "so2": [1.0, 0.0],
    "se2": [1.0, 0, 0, 0], "so3": [1.0, 0, 0, 0], "se3": [1.0, 0, 0, 0, 0, 0, 0],
    "s2": [1.0, 0, 0], "ps": [2.0], "mx": [1.0, 2.0], "w2": [-1.0, 4.0], "pr": [1.0, 0, 0, 0, 0, 0],
}


@st.composite
def _cases(draw, tier):
    big = tier != "quick"
    vs = draw(st.lists(st.sampled_from(M.ALL_KINDS), min_size=1, max_size=8 if big else 6))
    n = len(vs)
    if n < 8 and draw(st.booleans()):
        vs = (vs * 2)[:8]
        n = len(vs)
    many = draw(st.integers(0, 9)) == 1
    if many:
        vs = (vs * 8)[: draw(st.integers(9, 40))]
        n = len(vs)
    S = gen.SEEDS
    form = st.sampled_from(["np", "np", "jnp", "jnp", "int"])
    first = st.one_of(
        st.tuples(st.just("def"), S, st.sampled_from(["list", "tuple", "gen", "keys"])),
        st.tuples(st.just("dict"), S, S, form),
        st.tuples(st.just("part"), S, S, form),
    )
    op = st.one_of(
        st.tuples(st.just("def"), S, st.sampled_from(["list", "tuple", "gen", "keys"])),
        st.tuples(st.just("dict"), S, S, form),
        st.tuples(st.just("part"), S, S, form),
        st.tuples(st.just("set"), st.integers(0, 9), st.integers(0, n - 1), S, form),
        st.tuples(st.just("set"), st.integers(0, 9), st.integers(0, n - 1), S, form),
        st.tuples(st.just("lay"), st.integers(0, 9), S),
        st.tuples(st.sampled_from(["raw", "jit"]), st.integers(0, 9)),
        st.tuples(st.just("loc"), S, S, st.booleans()),
    )
    ops = [draw(first)] + draw(st.lists(op, min_size=0, max_size=3 if many else 14 if big else 8))
    return dict(vars=vs, ops=[list(o) for o in ops], sub=draw(S))


def strategy(tier):
    return _cases(tier)


def given_value(kind, seed, form):
    """A value in the given form, and its flat parameters."""
    flat = M.KINDS[kind].gen(seed)
    if form == "int" and kind in M.EUCLID_KINDS:
        flat = np.round(4 * flat)
        return flat, jax.tree_util.tree_map(lambda x: np.asarray(x).astype(int), M.KINDS[kind].make(flat))
    value = M.KINDS[kind].make(flat)
    if form == "jnp":
        value = jax.tree_util.tree_map(jnp.asarray, value)
    return flat, value


def check_local(op, vars_, kinds, info):
    """Layout changes of an object in local form move each variable's block."""
    o1, o2 = M.permutation(op[1], len(vars_)), M.permutation(op[2], len(vars_))
    lays = [core.StorageLayout.make([vars_[i] for i in o], local=True) for o in (o1, o2)]
    x = np.arange(1.0, lays[0].dim + 1).astype(M.F) * 0.375
    a = core.VariableAssignments(storage=x if op[3] else jnp.asarray(x), storage_layout=lays[0])
    b = a.update_storage_layout(lays[1])
    require(b.storage_layout == lays[1] and np.shape(b.storage) == x.shape, "local layout change: layout or shape")
    for i, v in enumerate(vars_):
        n = M.KINDS[kinds[i]].local
        s, t = (lay.index_from_variable[v] for lay in lays)
        close("local layout change, variable %d (%s)" % (i, kinds[i]), b.storage[t:t + n], x[s:s + n], rtol=TOL)
    c = b.update_storage_layout(lays[0])
    close("local layout change and back", c.storage, x, rtol=TOL)
    require(np.array_equal(np.asarray(a.storage), x), "a local layout change altered its input")
    info.label("local layout change")


def check_object(tag, obj, model, order, vars_, kinds):
    """Every read path of one assignments object."""
    require(
        set(obj.get_variables()) == {vars_[i] for i in order} and len(list(obj.get_variables())) == len(order),
        "%s: variables differ from the given ones", tag,
    )
    require(np.shape(obj.storage) == (sum(M.KINDS[kinds[i]].dim for i in order),), "%s: storage shape", tag)
    d = obj.as_dict()
    require(set(d) == {vars_[i] for i in order}, "%s: as_dict keys", tag)
    for i in order:
        k = kinds[i]
        for path, val in (("get_value", obj.get_value(vars_[i])), ("as_dict", d[vars_[i]])):
            require(M.value_shape_ok(k, val), "%s: %s of a %s has another structure: %s", tag, path, k, val)
            close("%s: %s of variable %d (%s)" % (tag, path, i, k), M.flat_of(k, val), model[i], rtol=TOL)
    for k in {kinds[i] for i in order}:
        cls = M.KINDS[k].cls
        members = [i for i in order if kinds[i] == k]
        by_storage = sorted(members, key=lambda i: obj.storage_layout.index_from_variable[vars_[i]])
        stacked = obj.get_stacked_value(cls)
        leaves = jax.tree_util.tree_leaves(stacked)
        require(all(np.shape(x)[0] == len(members) for x in leaves), "%s: stacked %s count", tag, k)
        for j, i in enumerate(by_storage):
            val = jax.tree_util.tree_map(lambda x: x[j], stacked)
            require(M.value_shape_ok(k, val), "%s: stacked element structure of %s", tag, k)
            close("%s: stacked value %d of %s" % (tag, j, k), M.flat_of(k, val), model[i], rtol=TOL)
    repr(obj)


def check(case, info):
    kinds = case["vars"]
    vars_ = M.make_vars(kinds)
    n = len(kinds)
    objs = []  # (object, model, order, storage snapshot)
    changed = False
    for step, op in enumerate(case["ops"]):
        if op[0] in ("set", "lay", "raw", "jit") and not objs:
            continue
        if op[0] == "loc":
            check_local(op, vars_, kinds, info)
            info.inner += 1
            continue
        if op[0] == "def":
            order = M.permutation(op[1], n)
            if op[1] % 3 == 0:
                order = order[: max(1, n // 2)]
            vs = [vars_[i] for i in order]
            it = dict(list=vs, tuple=tuple(vs), gen=(v for v in vs), keys=dict.fromkeys(vs).keys())[op[2]]
            obj = core.VariableAssignments.make_from_defaults(it)
            model = {i: np.array(DEFAULTS[kinds[i]]) for i in order}
        elif op[0] == "dict":
            order = M.permutation(op[1], n)
            given = {i: given_value(kinds[i], op[2] + 5 * i, op[3]) for i in order}
            model = {i: given[i][0] for i in order}
            source = {vars_[i]: given[i][1] for i in order}
            obj = core.VariableAssignments.make_from_dict(source)
            require(list(source) == [vars_[i] for i in order], "make_from_dict changed its argument")
        elif op[0] == "part":
            order = M.permutation(op[1], n)
            given = [i for i in order if (op[2] >> i) & 1]
            model = {i: np.array(DEFAULTS[kinds[i]]) for i in order}
            source = {}
            for i in reversed(given):
                model[i], source[vars_[i]] = given_value(kinds[i], op[2] + 5 * i, op[3])
            obj = core.VariableAssignments.make_from_partial_dict([vars_[i] for i in order], source)
            require(len(source) == len(given), "make_from_partial_dict changed its argument")
            info.label("partial dictionary")
        elif op[0] == "set":
            src = objs[op[1] % len(objs)]
            order = src[2]
            i = op[2]
            if i not in src[1]:
                continue
            flat, value = given_value(kinds[i], op[3], op[4])
            obj = src[0].set_value(vars_[i], value)
            model = dict(src[1])
            model[i] = flat
            require(obj.storage_layout == src[0].storage_layout, "set_value changed the layout")
            changed = changed or len(order) > 1
            info.label("set")
        elif op[0] in ("raw", "jit"):
            src = objs[op[1] % len(objs)]
            model, order = dict(src[1]), src[2]
            if op[0] == "raw":  # the same contents in a numpy vector
                obj = core.VariableAssignments(
                    storage=np.array(src[0].storage), storage_layout=src[0].storage_layout
                )
            else:
                obj = jax.jit(lambda a: a)(src[0])
            info.label("copy " + op[0])
        else:
            src = objs[op[1] % len(objs)]
            order = [src[2][j] for j in M.permutation(op[2], len(src[2]))]
            layout = core.StorageLayout.make([vars_[i] for i in order], local=False)
            obj = src[0].update_storage_layout(layout)
            model = dict(src[1])
            require(obj.storage_layout == layout, "update_storage_layout gave another layout")
            changed = changed or len(order) > 1
            info.label("layout change")
        info.inner += 1
        check_object("after op %d (%s)" % (step, op[0]), obj, model, order, vars_, kinds)
        objs.append((obj, model, order, np.array(obj.storage)))
    for j, (obj, model, order, snap) in enumerate(objs):
        require(np.array_equal(np.array(obj.storage), snap), "object %d was changed by a later operation", j)
        check_object("object %d at the end" % j, obj, model, order, vars_, kinds)
    if len({kinds[i] for o in objs for i in o[2]}) > 1:
        info.label("several variable types")
    info.nontrivial = changed

"""C15: Fisher algebra acts entrywise by parameter name; operands stay untouched; history never matters."""
import copy as _copy
from pbt import *
import fisherlib as fl

CHECK = Check("C15", ["Integer-valued entries: every comparison is exact.", "Rows and columns of a matrix are in the same order."])

OPS = st.one_of(
    st.tuples(st.sampled_from(["add", "sub"]), st.integers(0, 9), st.integers(0, 9)),
    st.tuples(st.just("fix"), st.integers(0, 9), st.integers(0, 4095)),
    st.tuples(st.just("fix_missing"), st.integers(0, 9), st.integers(0, 30)),
    st.tuples(st.just("prior"), st.integers(0, 9), st.integers(1, 4095), st.integers(0, 3), st.integers(0, 3)),
    st.tuples(st.sampled_from(["copy", "deepcopy"]), st.integers(0, 9)),
    st.tuples(st.just("slice"), st.integers(0, 9), st.booleans()),
    st.tuples(st.just("cache_inverse"), st.integers(0, 9)),
)


@st.composite
def history(draw):
    return {"init": [draw(fl.fisher(posdef=draw(st.booleans()))) for _ in range(draw(st.integers(1, 3)))],
            "ops": draw(ops_list(OPS, 1, 12))}


def positive(m):
    return bool(len(m.params)) and np.linalg.eigvalsh(m.M).min() > 1e-3


def pick(params, mask):
    return [p for i, p in enumerate(params) if mask >> i & 1]


@CHECK.prop(history(), quick=250, thorough=6000,
            rule="at least one binary operation on matrices with different parameter sets, or a modification after one")
def algebra_history(case, ctx):
    pool = [(fl.build(c), fl.Model.of(c)) for c in case["init"]]
    for i, (F, m) in enumerate(pool):
        fl.compare(F, m, f"initial matrix {i}")
    seen_binary = False
    for op in case["ops"]:
        kind, i = op[0], op[1] % len(pool)
        F, m = pool[i]
        ctx.label(kind)
        if kind in ("add", "sub"):
            G, g = pool[op[2] % len(pool)]
            R = F + G if kind == "add" else F - G
            r = m.combine(g, 1 if kind == "add" else -1)
            check(R is not F and R is not G, "the result of a sum is a new matrix")
            pool.append((R, r))
            ctx.nontrivial(set(m.params) != set(g.params))
            seen_binary = True
        elif kind == "fix":
            drop = pick(sorted(m.params), op[2])
            if len(drop) == len(m.params):
                drop = drop[1:]
            F.fixParameters(drop if op[2] % 2 else set(drop))
            m.fix(drop)
            ctx.nontrivial(seen_binary and bool(drop))
        elif kind == "fix_missing":
            absent = [p for p in fl.COSMO + fl.NUIS if p not in m.params]
            if absent:
                bad = absent[op[2] % len(absent)]
                raises(Exception, lambda: F.fixParameters([m.params[0], bad]), f"fixing absent parameter {bad}")
        elif kind == "prior":
            names = pick(sorted(m.params), op[2])
            fids = {p: (-1.0) ** k * 2.0 ** ((k + 2 * op[3]) % 7 - 2) for k, p in enumerate(names)}
            frac = 2.0 ** (-op[4])
            F.addPriorToParameters(fids, frac)
            m.prior({p: frac * v for p, v in fids.items()})
            ctx.nontrivial(seen_binary and bool(names))
        elif kind in ("copy", "deepcopy"):
            pool.append((F.copy() if kind == "copy" else _copy.deepcopy(F), m.copy()))
        elif kind == "slice":
            F.marginalize_nuisance = op[2]
            if not op[2] and not m.cosmo:
                F.marginalize_nuisance = True
            else:
                F.selectRelevantFisherSubMatrix()
                if not op[2]:
                    m.fix(sorted(m.nuis))
                F.marginalize_nuisance = True
                eq(list(F.matrix.index), sorted(m.params), "sliced matrix is sorted")
                eq(list(F.matrix.columns), sorted(m.params), "sliced matrix is sorted")
        elif kind == "cache_inverse":
            if positive(m):
                F.evaluateInverse()
        if len(pool) > 6:
            pool.pop(0)
        for k, (A, a) in enumerate(pool):
            if not positive(a):
                A.inverse = None  # keep singular intermediate results out of the cached-inverse code path
            fl.compare(A, a, f"matrix {k} after {op}")


@CHECK.prop(st.tuples(fl.fisher(), st.integers(0, 10**6), st.integers(0, 10**6)), quick=150, thorough=3000,
            rule="at least two parameters")
def equality_and_order(case, ctx):
    c, s, t = case
    F = fl.build(c)
    n = len(c["params"])
    ctx.nontrivial(n >= 2)
    perm = list(np.argsort(lcg(s, n)))
    G = F.copy()
    G.matrix = G.matrix.iloc[perm, perm]
    check(bool(F == G), "equality does not depend on parameter order")
    F.checkAttributes()
    H = F.copy()
    i, j = t % n, (t // n) % n
    H.matrix.iloc[i, j] += 1
    check(not bool(F == H), f"matrices differing in entry {(i, j)} compare equal")
    check(F.matrix.iloc[i, j] == fl.data(c)[i, j], "modifying a copy changes the original")
    K = F.copy()
    K.name = "other"
    check(not bool(F == K), "matrices with different names compare equal")
    if any(fl.KIND[p] == "c" for p in c["params"]):
        N = fl.build(c, marginalize=False)
        for what, X in (("copy", N.copy()), ("deep copy", _copy.deepcopy(N))):
            X.selectRelevantFisherSubMatrix()
            eq(sorted(X.matrix.index), sorted(p for p in c["params"] if fl.KIND[p] == "c"), f"{what} of a matrix whose nuisance parameters are fixed, sliced")
    # the order of the operands' parameters never changes a sum
    S1, S2 = F + G, G + F
    ps = c["params"]
    same_bits(S1.matrix.loc[ps, ps].to_numpy(), 2 * fl.data(c), "sum of reordered operands")
    same_bits(S2.matrix.loc[ps, ps].to_numpy(), 2 * fl.data(c), "sum of reordered operands")
    same_bits((F - G).matrix.loc[ps, ps].to_numpy(), np.zeros((n, n)), "difference of reordered operands")


@CHECK.prop(st.tuples(fl.fisher(min_c=2), st.integers(0, 20), st.sampled_from(["index", "cosmo", "nuis", "name"])),
            quick=60, rule="all")
def inconsistent_matrices_are_refused(case, ctx):
    c, k, what = case
    ctx.nontrivial()
    df = fl.build(c).matrix
    cos = {p for p in c["params"] if fl.KIND[p] == "c"}
    nui = set(c["params"]) - cos
    name = c["name"]
    if what == "index":
        df = df.drop(c["params"][k % len(c["params"])], axis=0)
    elif what == "cosmo":
        cos.add("mnu")
    elif what == "nuis":
        nui.add("betaIA")
    else:
        name = 3
    F = fl.FisherMatrix(matrix_df=df, name=name, cosmological_parameters=cos, nuisance_parameters=nui)
    raises(Exception, F.checkAttributes, f"checkAttributes with inconsistent {what}")
    if what == "name":
        raises(TypeError, lambda: setattr(F, "name", 7), "non-string name")
    if what in ("cosmo", "nuis"):
        raises(Exception, F.selectRelevantFisherSubMatrix, f"slicing with inconsistent {what}")

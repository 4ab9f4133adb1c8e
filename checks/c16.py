"""C16: errors, correlations, FoM and marginalisation always come from the current matrix's inverse."""
from pbt import *
import fisherlib as fl

CHECK = Check("C16", ["Well-conditioned positive definite matrices (condition number up to about 1e3)."])

OPS = st.one_of(
    st.tuples(st.just("inverse"), st.integers(0, 9)),
    st.tuples(st.just("correlation"), st.integers(0, 9)),
    st.tuples(st.just("fix"), st.integers(0, 9), st.integers(1, 4095)),
    st.tuples(st.just("prior"), st.integers(0, 9), st.integers(1, 4095)),
    st.tuples(st.just("marginalise"), st.integers(0, 9), st.integers(0, 4095), st.booleans()),
    st.tuples(st.just("marginalise_nuisance"), st.integers(0, 9), st.booleans(), st.booleans()),
    st.tuples(st.just("add"), st.integers(0, 9), st.integers(0, 9)),
    st.tuples(st.just("slice"), st.integers(0, 9), st.booleans()),
    st.tuples(st.just("errors"), st.integers(0, 9), st.booleans(), st.booleans()),
    st.tuples(st.just("missing"), st.integers(0, 9), st.integers(0, 20)),
)


@st.composite
def history(draw):
    return {"init": [draw(fl.fisher(posdef=True, min_c=2, need=draw(st.sampled_from([(), ("w0", "wa")]))))
                     for _ in range(draw(st.integers(1, 2)))],
            "exp": draw(st.sampled_from([0, 0, 0, 30])),  # very small errors
            "ops": draw(ops_list(OPS, 2, 10))}


def pick(params, mask):
    return [p for i, p in enumerate(params) if mask >> i & 1]


def check_errors(F, m, only_cosmo, fom, what):
    errs = F.getMarginalizedErrors(fom=fom, only_cosmo=only_cosmo)
    want = {p: np.sqrt(m.cov(p, p)) for p in m.params if not only_cosmo or fl.KIND[p] == "c"}
    if fom and {"w0", "wa"} <= set(m.params):
        want["FoM"] = m.fom()
    eq(sorted(errs.index), sorted(want), f"{what}: parameters with an error")
    for p, w in want.items():
        close(errs.loc[p], w, f"{what}: marginalised error of {p}", rtol=1e-7)
    un = F.getUnmarginalizedErrors(only_cosmo=only_cosmo)
    names = [p for p in m.params if not only_cosmo or fl.KIND[p] == "c"]
    eq(sorted(un.index), sorted(names), f"{what}: parameters with an unmarginalised error")
    for p in names:
        i = m.params.index(p)
        close(un.loc[p], 1 / np.sqrt(m.M[i, i]), f"{what}: unmarginalised error of {p}", rtol=1e-7)
        check(un.loc[p] <= errs.loc[p] * (1 + 1e-7), f"{what}: marginalising reduced the error of {p}")


def check_state(F, m, what):
    fl.compare(F, m, what, tol=1e-8)
    if F.inverse is not None:
        inv = F.inverse
        eq((sorted(inv.index), sorted(inv.columns)), (sorted(m.params), sorted(m.params)), f"{what}: inverse labels")
        close_scaled(inv.loc[m.params, m.params].to_numpy(), m.inverse(), f"{what}: inverse", tol=1e-7)
        for p in m.params:
            close(F.getParameterSigma(p), np.sqrt(m.cov(p, p)), f"{what}: sigma of {p}", rtol=1e-7)
        for a in sorted(m.params)[:2]:
            for b in sorted(m.params)[-2:]:
                if a != b:
                    close(F.getFigureOfMerit(a, b), m.fom(a, b), f"{what}: figure of merit of {a},{b}", rtol=1e-6)
    if F.correlation is not None:
        check_correlation(F, m, what)


def check_correlation(F, m, what):
    cor = F.correlation
    cos = sorted(m.cosmo)
    eq((list(cor.index), list(cor.columns)), (cos, cos), f"{what}: correlation labels")
    C = m.inverse()
    k = [m.params.index(p) for p in cos]
    C = C[np.ix_(k, k)]
    s = np.sqrt(np.diag(C))
    close(cor.to_numpy(), C / np.outer(s, s), f"{what}: correlation matrix of {cos}", rtol=1e-6, atol=1e-7)


@CHECK.prop(history(), quick=250, thorough=6000,
            rule="a quantity derived from the inverse is evaluated before and after a modification of the same matrix")
def derived_quantities_history(case, ctx):
    for c in case["init"]:
        c["scale"] *= 2.0 ** case["exp"]
    pool = [(fl.build(c), fl.Model.of(c)) for c in case["init"]]
    evaluated = set()
    for op in case["ops"]:
        kind, i = op[0], op[1] % len(pool)
        F, m = pool[i]
        ctx.label(kind)
        modified = False
        if kind == "inverse":
            F.evaluateInverse()
            evaluated.add(id(F))
        elif kind == "correlation":
            F.evaluateInverse()
            F.evaluateCorrelationMatrix()
            check_correlation(F, m, f"after {op}")
            evaluated.add(id(F))
        elif kind == "fix":
            drop = pick(sorted(m.params), op[2])[: len(m.params) - 1]
            F.fixParameters(drop)
            m.fix(drop)
            modified = bool(drop)
        elif kind == "prior":
            names = pick(sorted(m.params), op[2])
            F.addPriorToParameters({p: 2.0 + k for k, p in enumerate(names)}, 0.125)
            m.prior({p: 0.125 * (2.0 + k) for k, p in enumerate(names)})
            modified = bool(names)
        elif kind in ("marginalise", "marginalise_nuisance"):
            if kind == "marginalise":
                drop = pick(sorted(m.params), op[2])[: len(m.params) - 1]
                copy = op[3]
                res = F.marginalizeParameters(drop, ret_copy=copy)
            else:
                F.marginalize_nuisance = op[2]
                drop = sorted(m.nuis) if op[2] else []
                copy = op[3]
                res = F.marginalizeNuisance(ret_copy=copy)
                F.marginalize_nuisance = True
            if copy:
                r = m.copy()
                r.marginalise(drop)
                check(res is not F, "asked for a copy")
                res.marginalize_nuisance = True
                check_state(res, r, f"copy returned by {op}")
                pool.append((res, r))
            else:
                check(res is None, "in-place marginalisation returns nothing")
                m.marginalise(drop)
                modified = bool(drop)
        elif kind == "add":
            G, g = pool[op[2] % len(pool)]
            pool.append((F + G, m.combine(g, 1)))
            r = pool[-1][1]
            check_errors(*pool[-1], False, True, f"after {op}")
            for p in m.params:
                check(np.sqrt(r.cov(p, p)) <= np.sqrt(m.cov(p, p)) * (1 + 1e-9), "reference: information reduces errors")
            R = pool[-1][0]
            e1, e0 = R.getMarginalizedErrors(only_cosmo=False, fom=False), \
                F.copy().getMarginalizedErrors(only_cosmo=False, fom=False)
            for p in m.params:
                check(e1.loc[p] <= e0.loc[p] * (1 + 1e-7), f"adding information increased the error of {p}")
        elif kind == "slice":
            if op[2] or m.cosmo:
                F.marginalize_nuisance = op[2]
                F.selectRelevantFisherSubMatrix()
                F.marginalize_nuisance = True
                if not op[2]:
                    modified = bool(m.nuis)
                    m.fix(sorted(m.nuis))
        elif kind == "errors":
            check_errors(F, m, op[2], op[3], f"after {op}")
            evaluated.add(id(F))
        elif kind == "missing":
            absent = [p for p in fl.COSMO + fl.NUIS if p not in m.params]
            if absent:
                bad = absent[op[2] % len(absent)]
                raises(Exception, lambda: F.marginalizeParameters([bad], ret_copy=False), f"marginalising {bad}")
        if modified:
            ctx.nontrivial(id(F) in evaluated)
        if len(pool) > 5:
            pool.pop(0)
        for k, (A, a) in enumerate(pool):
            check_state(A, a, f"matrix {k} after {op}")
    for k, (A, a) in enumerate(pool):
        check_errors(A, a, False, True, f"finally, matrix {k}")


@CHECK.prop(st.tuples(fl.fisher(posdef=True, min_c=3, max_c=6), st.integers(0, 4095), st.integers(0, 4095)), quick=150,
            thorough=3000, rule="both subsets non-empty")
def marginalisation_composes(case, ctx):
    c, s, t = case
    F, m = fl.build(c), fl.Model.of(c)
    ps = sorted(m.params)
    A = pick(ps, s)[: len(ps) - 2]
    B = [p for p in pick(ps, t) if p not in A][: len(ps) - len(A) - 1]
    ctx.nontrivial(bool(A) and bool(B))
    two = F.marginalizeParameters(A).marginalizeParameters(B)
    swapped = F.marginalizeParameters(B).marginalizeParameters(A)
    one = F.marginalizeParameters(A + B)
    keep = [p for p in ps if p not in A + B]
    ref = one.matrix.loc[keep, keep].to_numpy()
    close_scaled(two.matrix.loc[keep, keep].to_numpy(), ref, "marginalising in two steps", tol=1e-8)
    close_scaled(swapped.matrix.loc[keep, keep].to_numpy(), ref, "marginalising in swapped order", tol=1e-8)
    m.marginalise(A + B)
    fl.compare(one, m, "marginalised matrix", tol=1e-8)
    fl.compare(F, fl.Model.of(c), "the original", tol=0)
    # fixing commutes with marginalising something else only through the joint matrix: fix first == conditional
    e_full = F.getMarginalizedErrors(only_cosmo=False, fom=False)
    e_marg = one.getMarginalizedErrors(only_cosmo=False, fom=False)
    G = F.copy()
    if A + B:
        G.fixParameters(A + B)
    e_fix = G.getMarginalizedErrors(only_cosmo=False, fom=False)
    for p in keep:
        close(e_marg.loc[p], e_full.loc[p], f"marginalising over others changed the error of {p}", rtol=1e-7)
        check(e_fix.loc[p] <= e_full.loc[p] * (1 + 1e-7), f"fixing others increased the error of {p}")


@CHECK.prop(fl.fisher(posdef=True), quick=40, rule="all")
def sigma_needs_an_inverse(c, ctx):
    ctx.nontrivial()
    F = fl.build(c)
    raises(ValueError, lambda: F.getParameterSigma(c["params"][0]), "sigma without an inverse")

"""C18: forecast results combine and tabulate Fisher matrices consistently."""
import copy as _copy
from scipy import special
from pbt import *
import pandas as pd
import fisherlib as fl
from fisherlib import FisherMatrix
from seyfert.cosmology.parameter import PhysicalParameter, PhysicalParametersCollection
from seyfert.fisher import final_results_core as frc
from seyfert.fisher.fisher_analysis import FisherAnalysis, FisherAnalysisError

CHECK = Check("C18", ["Well conditioned positive definite base matrices; subtracted matrices may be indefinite, then "
                      "only matrices are compared, not errors."])

BASE = ["[WL]", "[GCph]", "[GCsp]", "[WL+GCph+XC(WL,GCph)]"]
ALLC = ["Omm", "Omb", "h", "ns", "sigma8", "w0", "wa"]
LCDM = {"Omm", "Omb", "h", "ns", "sigma8"}


def params_collection(fids, extra):
    d = {}
    for name, v in fids.items():
        d[name] = PhysicalParameter.createCosmologicalParameter(name=name, fiducial=float(v), is_free_parameter=True)
    for name in extra:
        d[name] = PhysicalParameter.createCosmologicalParameter(name=name, fiducial=0.5, is_free_parameter=False)
    return PhysicalParametersCollection(data_dict=d, base_stem_disps=np.array([0.01]), is_universe_flat=True)


@st.composite
def results_case(draw):
    names = draw(st.lists(st.sampled_from(BASE), min_size=1, max_size=4, unique=True))
    mats = []
    for nm in names:
        nui = draw(st.lists(st.sampled_from(fl.NUIS), max_size=3, unique=True))
        ps = list(draw(st.permutations(ALLC + nui)))
        mats.append({"name": nm, "params": ps, "ints": draw(vec(len(ps) ** 2, st.integers(-3, 3))),
                     "scale": draw(st.sampled_from([1.0, 8.0])), "posdef": True})
    combos = []
    for _ in range(draw(st.integers(0, 3))):
        n = draw(st.integers(1, 4))
        expr = draw(st.sampled_from(names))
        for _ in range(n - 1):
            expr += draw(st.sampled_from([" + ", " + ", " - "])) + draw(st.sampled_from(names + ["[V]"] * (n == 4)))
        if expr not in combos:
            combos.append(expr)
    fids = {p: draw(st.sampled_from([0.0, -1.0, 0.32, 1.0, 0.05, -0.5, 2e-4, 2.1e-9])) for p in ALLC}
    return {"mats": mats, "combos": combos, "fids": fids, "cosmology": draw(st.sampled_from(["LCDM", "w0_wa_CDM"])),
            "treatment": draw(st.sampled_from(["marg_before", "marg_after", "nuis_fixed"]))}


def evaluate(expr, models):
    toks = expr.split(" ")
    if any(t not in models for t in toks[::2]):
        return None
    res = models[toks[0]].copy()
    for op, name in zip(toks[1::2], toks[2::2]):
        res = res.combine(models[name], 1 if op == "+" else -1)
    return res


def reference(case):
    models = {}
    for c in case["mats"]:
        m = fl.Model.of(c)
        if case["cosmology"] == "LCDM":
            m.fix(["w0", "wa"])
        if case["treatment"] == "nuis_fixed":
            m.fix(sorted(m.nuis))
        elif case["treatment"] == "marg_before":
            m.marginalise(sorted(m.nuis))
        models[m.name] = m
    for e in case["combos"]:
        r = evaluate(e, models)
        if r is not None:
            w = np.abs(np.linalg.eigvalsh(r.M))
            if w.min() <= 1e-3 * w.max():
                case["combos"] = [x for x in case["combos"] if x != e]  # (nearly) singular, e.g. A - A: no errors exist
            else:
                models[e] = r
    return models


def positive(m):
    w = np.linalg.eigvalsh(m.M)
    return w.min() > 1e-4 * abs(w).max()


def check_tables(errs, rel, models, fids, what):
    eq(sorted(errs.index), sorted(models), f"{what}: rows of the errors table")
    for name, m in models.items():
        if not positive(m):
            continue
        want = {p: np.sqrt(m.cov(p, p)) for p in m.cosmo}
        if {"w0", "wa"} <= set(m.params):
            want["FoM"] = m.fom()
        row = errs.loc[name].dropna()
        eq(sorted(row.index), sorted(want), f"{what}: entries tabulated for {name}")
        for p, w in want.items():
            close(row[p], w, f"{what}: error of {p} for {name}", rtol=1e-6)
            f = fids.get(p, 0.0)
            if p == "FoM" or p in fids:
                close(rel.loc[name, p], w / (abs(f) if f != 0 else 1.0), f"{what}: relative error of {p} for {name}",
                      rtol=1e-6)


@CHECK.prop(results_case(), quick=60, thorough=1200, rule="at least one combination evaluated")
def final_results(case, ctx):
    ctx.label(case["cosmology"], case["treatment"])
    Fs = {c["name"]: fl.build(c) for c in case["mats"]}
    params = params_collection(case["fids"], ["gamma"])
    models = reference(case)
    ctx.nontrivial(any(" " in k for k in models))
    out = ctx.tmp()
    kw = {"marg_before": dict(marg_nuis_before=True), "marg_after": dict(marg_nuis_before=False),
          "nuis_fixed": dict(fix_nuisance=True)}[case["treatment"]]
    an = frc.create_results_for_cosmology(Fs, case["cosmology"], params, list(case["combos"]), out, **kw)
    for c in case["mats"]:
        fl.compare(Fs[c["name"]], fl.Model.of(c), "the input matrices are not modified")
    eq(sorted(an.fisher_matrices), sorted(models), "matrices in the analysis")
    for name, m in models.items():
        fl.compare(an.fisher_matrices[name], m, f"{case['treatment']} {name}", tol=1e-8)
    fids = {p: v for p, v in case["fids"].items() if case["cosmology"] != "LCDM" or p in LCDM}
    check_tables(an.marginalized_errors, an.relative_marginalized_errors, models, fids, "analysis")
    # what was written to disk is what the analysis says
    sub = out / case["cosmology"] / case["treatment"]
    csv = [p for p in sub.glob("*.csv")]
    ab = [p for p in csv if p.name.startswith("marginalized")]
    re_ = [p for p in csv if p.name.startswith("relative")]
    eq((len(ab), len(re_)), (1, 1), "error tables on disk")
    check_tables(pd.read_csv(ab[0], index_col=0), pd.read_csv(re_[0], index_col=0), models, fids, "csv")
    back = FisherAnalysis(analysis_name="back")
    back.loadBaseFishersFromDir(sub)
    eq(sorted(back.base_fishers), sorted(models), "matrices on disk")
    for name, m in models.items():
        fl.compare(back.base_fishers[name], m, f"on disk, {name}", tol=1e-8)


@st.composite
def combo_case(draw):
    n = draw(st.integers(2, 5))
    names = draw(st.permutations(BASE + ["A+XC(A,B)"]))[:n]
    vals = [draw(st.integers(-50, 50)) for _ in names]
    toks = [draw(st.sampled_from(names))]
    for _ in range(draw(st.integers(0, 6))):
        toks += [draw(st.sampled_from(["+", "-"])), draw(st.sampled_from(names))]
    return {"names": list(names), "vals": vals, "expr": " ".join(toks)}


@CHECK.prop(combo_case(), quick=200, thorough=4000, rule="at least two operators")
def combination_expressions(case, ctx):
    """A combination over any additive objects is the left-to-right sum with signs."""
    toks = case["expr"].split(" ")
    ctx.nontrivial(len(toks) >= 5)
    vals = dict(zip(case["names"], case["vals"]))
    Fs = dict(vals)
    frc.evaluate_a_posteriori_fisher_combinations(Fs, [case["expr"], "[missing] + " + case["names"][0]])
    want = vals[toks[0]] + sum((1 if o == "+" else -1) * vals[x] for o, x in zip(toks[1::2], toks[2::2]))
    expected = dict(vals)
    expected[case["expr"]] = want
    eq(Fs, expected, f"value of {case['expr']}")


@st.composite
def analysis_case(draw):
    names = draw(st.lists(st.sampled_from(BASE), min_size=2, max_size=4, unique=True))
    mats = []
    for nm in names:
        c = draw(fl.fisher(posdef=True, min_c=2, name=nm, need=("w0", "wa")))
        mats.append(c)
    addends = draw(st.lists(st.lists(st.sampled_from(names), min_size=1, max_size=3), min_size=1, max_size=4))
    return {"mats": mats, "addends": addends, "marg": draw(st.lists(st.sampled_from(fl.COSMO[:2] + fl.NUIS), max_size=4)),
            "all_nuis": draw(st.booleans()), "as_list": draw(st.booleans()),
            "CL": draw(st.sampled_from([0.5, 0.683, 0.9, 0.954]))}


@CHECK.prop(analysis_case(), quick=80, thorough=1500, rule="a sum of at least two addends")
def analysis_of_matrices(case, ctx):
    models = {c["name"]: fl.Model.of(c) for c in case["mats"]}
    fids = {p: 0.5 + 0.25 * i for i, p in enumerate(fl.COSMO)}
    fids["wa"] = 0.0
    fids["w0"] = -1.0
    mats = [fl.build(c) for c in case["mats"]]
    an = FisherAnalysis(analysis_name="x", cosmo_pars_fiducial=dict(fids),
                        fisher_matrices=mats if case["as_list"] else {F.name: F for F in mats})
    eq(sorted(an.fisher_matrices), sorted(models), "matrices of the analysis")
    an.base_fishers = {F.name: F.copy() for F in mats}
    addends = []
    for a in case["addends"]:
        if a not in addends:
            addends.append(a)
    an.evaluateFishersFromAddendsList(addends)
    want = {}
    for a in addends:
        m = models[a[0]].copy()
        for x in a[1:]:
            m = m.combine(models[x], 1)
        want["+".join(a)] = m
        ctx.nontrivial(len(a) > 1)
    eq(sorted(an.fisher_matrices), sorted(want), "names of the sums")
    an.prepareFisherMatrices()
    an.evaluateMarginalizedErrors()
    for k, m in want.items():
        fl.compare(an.fisher_matrices[k], m, f"sum {k}", tol=1e-10)
        c = an.correlation_matrices[k]
        close(np.diag(c.to_numpy()), np.ones(len(m.cosmo)), f"diagonal of the correlation matrix of {k}", rtol=1e-7)
    check_tables(an.marginalized_errors, an.relative_marginalized_errors, want, fids, "analysis")
    for name, m in models.items():
        fl.compare(an.base_fishers[name], m, "base matrices are not modified by the sums", tol=1e-12)
    out = ctx.tmp()
    an.saveFishersToDisk(out)
    saved = {F.name: F for F in map(fl.FisherMatrix.fromHDF5, out.iterdir())}
    eq(sorted(saved), sorted(want), "matrices saved under the names they have in the analysis")
    for k, m in want.items():
        x = m.copy()
        x.name = k
        fl.compare(saved[k], x, f"saved {k}", tol=1e-10)
    # contour: the ellipse is the covariance of the two parameters
    k, m = next(iter(want.items()))
    d = an.computeEllipseInfoDictForObsAndCL("w0", "wa", k, case["CL"])
    q = np.sqrt(2) * special.erfinv(case["CL"])
    th = np.deg2rad(d["angle"])
    R = np.array([[np.cos(th), -np.sin(th)], [np.sin(th), np.cos(th)]])
    cov = R @ np.diag([(d["width"] / 2 / q) ** 2, (d["height"] / 2 / q) ** 2]) @ R.T
    ref = np.array([[m.cov("w0", "w0"), m.cov("w0", "wa")], [m.cov("wa", "w0"), m.cov("wa", "wa")]])
    close_scaled(cov, ref, "covariance drawn by the ellipse", tol=1e-6)
    eq(tuple(d["xy"]), (-1.0, 0.0), "centre of the ellipse")
    lo, hi = an.computeParameterRangeForObsAtCL("w0", k, case["CL"])
    s = np.sqrt(m.cov("w0", "w0"))
    close([lo, hi], [-1 - q * s, -1 + q * s], "parameter range", rtol=1e-6)
    # subset analysis
    sel = sorted(want, reverse=case["all_nuis"])[:2]
    if case["as_list"]:
        an.base_fishers.update({n: an.fisher_matrices[n] for n in sel})
    else:
        an.base_fishers = None
    sub = an.getSubsetAnalysis(sel)
    eq((sorted(sub.fisher_matrices), list(sub.marginalized_errors.index), sub.fishers_order), (sorted(sel), sel, sel), "subset analysis, in the order asked for")
    sub2 = an.getSubsetAnalysis(sel, recompute_errs=True)
    check_tables(sub2.marginalized_errors, sub2.relative_marginalized_errors, {n: want[n] for n in sel}, fids, "subset")
    sub2.marginalizeFishers({"w0"})
    for k, m in want.items():
        fl.compare(an.fisher_matrices[k], m, f"sum {k} after marginalising a subset", tol=1e-10)
    # marginalising all matrices at once
    drop = "all_nuisance" if case["all_nuis"] else set(case["marg"])
    an.fisher_matrices = {n: F.copy() for n, F in an.fisher_matrices.items()}
    an.marginalizeFishers(drop)
    for n, m in want.items():
        r = m.copy()
        r.marginalise(sorted(r.nuis) if case["all_nuis"] else [p for p in r.params if p in drop])
        fl.compare(an.fisher_matrices[n], r, f"marginalised {n}", tol=1e-8)
    an.base_fishers = {F.name: F.copy() for F in mats}
    raises(FisherAnalysisError, lambda: an.evaluateFishersFromAddendsList([["nope"]]), "unknown matrix")
    raises(FisherAnalysisError, lambda: an.evaluateFishersFromAddendsList([[case["mats"][0]["name"], "nope"]]),
           "unknown addend")

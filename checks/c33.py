"""C33: results collected from many runs are the results of each run, with its options."""
from pbt import *
import copy
import itertools
import pandas as pd
import fisherlib as fl
from c18 import ALLC, LCDM, params_collection, evaluate, positive
from seyfert.fisher import final_results_core as frc
from seyfert.fisher.fisher_analysis import FisherAnalysis
from seyfert.fisher.results_collector import ResultsCollector
from seyfert.notebook_helpers import load_helpers, misc
from seyfert.utils.workspace import WorkSpace

CHECK = Check("C33", ["Fisher matrices are positive definite and well conditioned; runs of one folder have different options.",
                      "Options are the synthetic options of the configuration of each run; folders are named as orchestration names them."])
BASE = ["[WL]", "[GCph]", "[GCsp(Pk)]", "[WL+GCph+XC(WL,GCph)]"]
SUMS = ["[WL] + [GCsp(Pk)]", "[WL+GCph+XC(WL,GCph)] + [GCsp(Pk)]", "[WL] + [GCph]"]
HYBRID = ["n_sp_bins", "scenario", "shot_noise_sp_reduced", "gcph_minus_gcsp", "gcph_only_bins_in_spectro_range"]
KW = {"marg_before": dict(marg_nuis_before=True), "marg_after": dict(marg_nuis_before=False), "nuis_fixed": dict(fix_nuisance=True)}
TREATMENTS = sorted(KW)


@st.composite
def matrices_of(draw, names, free):
    mats = []
    for nm in names:
        ps = list(draw(st.permutations(free + draw(st.lists(st.sampled_from(fl.NUIS), max_size=2, unique=True)))))
        mats.append({"name": nm, "params": ps, "seed": draw(st.integers(0, 10 ** 6)), "scale": draw(st.sampled_from([1.0, 8.0])), "posdef": True})
    return mats


def filled(mats):
    return [{**m, "ints": [int(x) for x in np.rint(lcg(m["seed"], len(m["params"]) ** 2, -3, 3))]} for m in mats]


@st.composite
def runs_case(draw, hybrid=False):
    names = draw(st.lists(st.sampled_from(BASE), min_size=1, max_size=3, unique=True))
    if hybrid and "[GCsp(Pk)]" not in names:
        names.append("[GCsp(Pk)]")
    sums = draw(st.lists(st.sampled_from(SUMS), max_size=2, unique=True))
    free = ALLC + (["gamma"] if draw(st.integers(0, 2)) == 0 else [])
    if hybrid:
        pool = [dict(zip(HYBRID, (n, s, r, g, o))) for n, s, r, g, o in itertools.product([4], ["optimistic", "pessimistic"], [False, True], [False, True], [False, True])]
        combos = draw(st.lists(st.sampled_from(pool), min_size=1, max_size=2, unique_by=lambda d: tuple(d.values())))
        opts = [dict(c, n_sp_bins=n) for c in combos for n in [4] + draw(st.lists(st.sampled_from([12, 24, 40]), min_size=0, max_size=2, unique=True))]
        opts = draw(st.permutations(opts))
    else:
        opts = draw(st.lists(st.fixed_dictionaries({"scenario": st.sampled_from(["optimistic", "pessimistic"]), "n_sp_bins": st.sampled_from([4, 12, 24, 40])},
                                                    optional={"gcph_minus_gcsp": st.booleans(), "shot_noise_sp_reduced": st.booleans(), "label": st.sampled_from(["a", "b c", "v1"])}),
                             min_size=1, max_size=4, unique_by=lambda d: (d["scenario"], d["n_sp_bins"])))
        if draw(st.booleans()):  # the same options for all runs
            keys = sorted(set.intersection(*(set(o) for o in opts)))
            opts = [{k: o[k] for k in keys} for o in opts]
    runs = []
    for o in opts:
        runs.append({"opts": {k: o[k] for k in draw(st.permutations(sorted(o)))}, "style": draw(st.integers(0, 2)), "mats": draw(matrices_of(names, free)), "sub": draw(st.integers(0, 3)) == 0})
    return {"runs": runs, "sums": sums, "free": free, "fids": {p: draw(st.sampled_from([0.0, -1.0, 0.32, 1.0, 0.05, -0.5])) for p in free},
            "cosmology": draw(st.sampled_from(["w0_wa_CDM", "w0_wa_CDM", "LCDM"])), "treatment": draw(st.sampled_from(TREATMENTS)), "recursive": draw(st.booleans()),
            "sel": draw(st.lists(st.sampled_from(sorted(opts[0])), min_size=1, max_size=2, unique=True)), "pick": draw(st.integers(0, 3)),
            "fishers": draw(st.one_of(st.none(), st.permutations(names).map(lambda x: x[:2]))), "eager": draw(st.booleans())}


def name_of(i, r):
    o = r["opts"]
    tail = "__".join(k for k, v in o.items() if v is True)
    return [f"run_{o['scenario']}_{i}_{tail}", f"{o['scenario']}_{o['n_sp_bins']}_sp_bins_{i}_{tail}", f"scenario_{o['scenario']}__n_sp_bins_{o['n_sp_bins']}__{i}{tail}"][r["style"]]


def model_of(case, r, cosmology, treatment):
    models = {}
    for c in filled(r["mats"]):
        m = fl.Model.of(c)
        m.fix([p for p in m.cosmo if p not in (LCDM if cosmology == "LCDM" else set(ALLC))])
        if treatment == "nuis_fixed":
            m.fix(sorted(m.nuis))
        elif treatment == "marg_before":
            m.marginalise(sorted(m.nuis))
        models[m.name] = m
    for e in case["sums"]:
        m = evaluate(e, models)
        if m is not None:
            models[e] = m
    return models


def errors_of(models, fids, relative):
    out = {}
    for name, m in models.items():
        e = {p: np.sqrt(m.cov(p, p)) for p in m.cosmo}
        if relative:
            e = {p: s / (abs(fids[p]) if fids[p] != 0 else 1.0) for p, s in e.items()}
        if {"w0", "wa"} <= set(m.params):
            e["FoM"] = m.fom()
        out[name] = e
    return out


def make_run(case, r, folder, name):
    """a run folder as a forecast leaves it"""
    run = folder / name
    run.mkdir(parents=True)
    cfg = folder / "cfg.json"
    cfg.write_text(json.dumps({"metadata": {}, "synthetic_opts": r["opts"], "survey": {"f_sky": 0.3, "shot_noise_file": None}, "cosmology": {"flat": True, "parameters": []},
                               "probes": {p: {"presence_flag": False} for p in ("WL", "GCph", "GCsp", "V")}, "derivative_settings": {}}))
    params = params_collection(case["fids"], ["mnu"])
    ws = WorkSpace(run)
    ws.createInputFilesDir({"forecast": cfg}, params, folder)
    cfg.unlink()
    (run / "run_metadata.json").write_text(json.dumps({"run_id": f"id of {name}"}))
    Fs = {c["name"]: fl.build(c) for c in filled(r["mats"])}
    cosmologies, treatments = {case["cosmology"], "w0_wa_CDM"}, {case["treatment"], "marg_before"}
    for cosmology in cosmologies:
        for treatment in treatments:
            frc.create_results_for_cosmology(Fs, cosmology, params, list(case["sums"]), run / "final_results", **KW[treatment])
    return run


def same(x, y):
    return (x == y) if not (isinstance(x, float) and np.isnan(x)) else y is None


def check_table(df, runs, options, what):
    """runs: [(options, {matrix: {parameter: value}})]; one row per run and matrix"""
    eq(len(df), sum(len(e) for _, e in runs), f"number of rows of {what}")
    columns = set().union(*(e.keys() for _, es in runs for e in es.values()))
    eq(set(df.columns) - {"index"}, {"fisher"} | columns | options, f"columns of {what}")
    rows = df.to_dict("records")
    for opts, es in runs:
        mine = [r for r in rows if all(same(r[k], opts.get(k)) for k in options)]
        eq(sorted(r["fisher"] for r in mine), sorted(es), f"rows of the run with {opts} in {what}")
        for r in mine:
            e = es[r["fisher"]]
            for p in columns:
                if p in e:
                    close(r[p], e[p], f"{p} of {r['fisher']} in the run with {opts} in {what}", rtol=1e-6)
                else:
                    check(pd.isna(r[p]), f"{what} has {p} for {r['fisher']} in the run with {opts}, which has none")


def check_analysis(an, models, fids, what):
    eq(sorted(an.fisher_matrices), sorted(models), f"matrices of {what}")
    for name, m in models.items():
        fl.compare(an.fisher_matrices[name], m, f"{name} of {what}", tol=1e-8)
    for attr, rel in (("marginalized_errors", False), ("relative_marginalized_errors", True)):
        df = getattr(an, attr)
        if df is not None:
            want = errors_of(models, fids, rel)
            eq(sorted(df.index), sorted(want), f"rows of the {attr} of {what}")
            for name, e in want.items():
                row = df.loc[name].dropna()
                eq(sorted(row.index), sorted(e), f"{attr} of {name} of {what}")
                for p, v in e.items():
                    close(row[p], v, f"{attr} of {p} for {name} of {what}", rtol=1e-6)


def setup(case, ctx):
    root = ctx.tmp() / "all runs"
    root.mkdir()
    folders = []
    for i, r in enumerate(case["runs"]):
        where = root / "nested" if r["sub"] else root
        folders.append(make_run(case, r, where, name_of(i, r)))
    (root / "other_4_sp_bins").mkdir()
    (root / "run_optimistic_notes.txt").write_text("")
    rc = ResultsCollector()
    rc.loadWorkSpaces(root, **({"recursive": True} if case["recursive"] else {}))
    kept = [i for i, r in enumerate(case["runs"]) if case["recursive"] or not r["sub"]]
    eq(sorted(str(w.run_dir.resolve()) for w in rc.ws_list), sorted(str(folders[i].resolve()) for i in kept), "runs found")
    return root, rc, kept


def by_options(df, case, kept, options):
    """the analysis of each run, found by its options"""
    out = {}
    for row in df.to_dict("records"):
        hits = [i for i in kept if all(same(row[k], case["runs"][i]["opts"].get(k)) for k in options)]
        eq(len(hits), 1, f"runs with the options {({k: row[k] for k in options})} of a row of the analyses")
        out[hits[0]] = row["analysis"]
    return out


@CHECK.prop(runs_case(), quick=30, thorough=600, rule="at least two runs collected")
def collected_tables(case, ctx):
    root, rc, kept = setup(case, ctx)
    ctx.nontrivial(len(kept) > 1)
    if not kept:
        return
    case["fids"] = dict(case["fids"])
    fids, cosmology, treatment = case["fids"], case["cosmology"], case["treatment"]
    options = set().union(*(case["runs"][i]["opts"] for i in kept))
    ctx.label(cosmology, treatment, "gamma free" if "gamma" in case["free"] else "gamma fixed", f"{len(kept)} runs")
    models = {i: model_of(case, case["runs"][i], cosmology, treatment) for i in kept}
    want = {rel: [(case["runs"][i]["opts"], errors_of(models[i], fids, rel)) for i in kept] for rel in (False, True)}
    where = dict(cosmology=cosmology, res_subdir_name=treatment)
    check_table(rc.buildMarginalizedErrorsTable(**where), want[False], options, "the table of errors")
    check_table(rc.buildRelativeMarginalizedErrorsTable(**where), want[True], options, "the table of relative errors")
    df = rc.buildFisherAnalysesDataFrame(**where)
    eq(set(df.columns), options | {"analysis"}, "columns of the analyses")
    eq(len(df), len(kept), "number of analyses")
    for i, an in by_options(df, case, kept, options).items():
        check_analysis(an, models[i], fids, f"the analysis of run {i}")
        eq(an.metadata, case["runs"][i]["opts"], f"options of the analysis of run {i}")
    # files
    out = root.parent / "out"
    rc.collectAndDumpResults(out if case["eager"] else str(out), **where)
    sub = out / cosmology / treatment
    check_table(pd.read_excel(sub / "marginalized_errors.xlsx"), want[False], options, "the spreadsheet of errors")
    check_table(pd.read_excel(sub / "relative_marginalized_errors.xlsx"), want[True], options, "the spreadsheet of relative errors")
    back = ResultsCollector()
    back.loadFisherAnalysesPickle(sub / "fisher_analyses.pickle")
    found = by_options(back.analyses_df, case, kept, options)
    eq(sorted(found), kept, "analyses read back")
    for i, an in found.items():
        check(an.marginalized_errors is not None and an.relative_marginalized_errors is not None, "analyses read back have their errors")
        check_analysis(an, models[i], fids, f"the analysis of run {i} read back")
    check_table(back.getMarginalizedErrorsTableFromAnalysesDataFrame(), want[False], options, "the table of errors of the analyses")
    check_table(back.getRelativeMarginalizedErrorsTableFromAnalysesDataFrame(), want[True], options, "the table of relative errors of the analyses")
    # selection of analyses by options (those all runs have), and of some of their matrices
    chosen = case["runs"][kept[case["pick"] % len(kept)]]["opts"]
    sel = {k: chosen[k] for k in case["sel"] if all(k in case["runs"][i]["opts"] for i in kept)}
    shared = [k for k in chosen if all(k in case["runs"][i]["opts"] for i in kept)]
    for sel in [sel] + [{k: chosen[k]} for k in sorted(shared)] if sel else []:
        names = list(case["fishers"]) if case["fishers"] is not None else None
        part = back.getFisherAnalysesSubDf(sel, sel_fishers=names)
        hits = [i for i in kept if all(case["runs"][i]["opts"][k] == v for k, v in sel.items())]
        got = by_options(part, case, kept, options)
        eq(sorted(got), hits, f"analyses with {sel}")
        for i, an in got.items():
            check_analysis(an, {n: m for n, m in models[i].items() if names is None or n in names}, fids, f"the selected analysis of run {i}")
            if names is not None:
                eq(list(an.fishers_order), names, "order of the selected matrices")
                an.marginalizeFishers({"Omm"})
        for i, an in by_options(back.analyses_df, case, kept, options).items():
            check_analysis(an, models[i], fids, f"the analysis of run {i} after selecting {sel}")
    # one run at a time
    i = kept[0]
    an = FisherAnalysis(cosmo_pars_fiducial={p: v for p, v in fids.items() if p in (LCDM if cosmology == "LCDM" else ALLC)})
    [ws] = [w for w in rc.ws_list if w.run_dir.name == name_of(i, case["runs"][i])]
    an.loadFromRundir(ws.run_dir, **where)
    an.evaluateMarginalizedErrors()
    check_analysis(an, models[i], fids, f"run {i}")
    eq((an.name, an.metadata), (f"id of {ws.run_dir.name}", {"run_id": f"id of {ws.run_dir.name}"}), "name and metadata of the run")


@CHECK.prop(runs_case(hybrid=True), quick=25, thorough=500, rule="a run with other numbers of bins than four")
def four_bin_equivalents(case, ctx):
    """Matrices with the external spectroscopic matrix are replaced by those of the four-bin run with the same other options."""
    case = {**case, "runs": [{**r, "sub": False} for r in case["runs"]]}
    root, rc, kept = setup(case, ctx)
    where = dict(cosmology=case["cosmology"], res_subdir_name=case["treatment"])
    rc.collectAndDumpResults(root.parent, **where)
    back = ResultsCollector()
    back.loadFisherAnalysesPickle(root.parent / case["cosmology"] / case["treatment"] / "fisher_analyses.pickle")
    columns = set(back.analyses_df.columns)
    back.replaceHybridFishersWith4BinsEquivalents()
    eq(set(back.analyses_df.columns), columns, "columns of the analyses")
    found = by_options(back.analyses_df, case, kept, set(HYBRID))
    eq(sorted(found), kept, "analyses")
    models = {i: model_of(case, case["runs"][i], case["cosmology"], case["treatment"]) for i in kept}
    for i, an in found.items():
        o = case["runs"][i]["opts"]
        [four] = [j for j in kept if case["runs"][j]["opts"] == {**o, "n_sp_bins": 4}]
        ctx.nontrivial(four != i)
        check_analysis(an, {n: models[four if "Pk" in n else i][n] for n in models[i]}, case["fids"], f"the analysis with {o}")
    check_table(back.getRelativeMarginalizedErrorsTableFromAnalysesDataFrame(),
                [(case["runs"][i]["opts"], errors_of({n: models[[j for j in kept if case["runs"][j]["opts"] == {**case["runs"][i]["opts"], "n_sp_bins": 4}][0] if "Pk" in n else i][n] for n in models[i]}, case["fids"], True)) for i in kept],
                set(HYBRID), "the table of relative errors")


@st.composite
def scenario_case(draw):
    c = draw(runs_case(hybrid=True))
    keys = draw(st.lists(st.tuples(st.sampled_from(["optm", "pess"]), st.sampled_from([4, 12, 24, 40]), st.booleans()), min_size=1, max_size=4, unique=True))
    wanted = draw(st.sampled_from(keys))
    if (wanted[0], 4, wanted[2]) not in keys:
        keys.append((wanted[0], 4, wanted[2]))
    names = [m["name"] for m in c["runs"][0]["mats"]]
    return {**c, "keys": [list(k) for k in keys], "wanted": list(wanted), "runs": [{"opts": {"scenario": k[0], "n_sp_bins": k[1], "gcph_minus_gcsp": k[2]}, "mats": draw(matrices_of(names, c["free"]))} for k in keys],
            "subset": draw(st.lists(st.sampled_from(names + c["sums"]), min_size=1, max_size=2, unique=True)), "spaces": draw(st.booleans())}


@CHECK.prop(scenario_case(), quick=25, thorough=500, rule="at least two runs of the scenario")
def runs_of_a_scenario(case, ctx):
    root = ctx.tmp() / "runs"
    for k, r in zip(case["keys"], case["runs"]):
        make_run(case, r, root, f"{k[0]}_{k[1]}_sp_bins_{'gcph_minus_gcsp_' if k[2] else ''}x")
    (root / "optm_notes").mkdir()
    (root / "optm_16_sp_bins_x").write_text("")
    scenario, _, minus = case["wanted"]
    mine = {k[1]: r for k, r in zip(case["keys"], case["runs"]) if k[0] == scenario and k[2] == minus}
    ctx.nontrivial(len(mine) > 1)
    found = load_helpers.load_workspaces_for_scenario(scenario, gcph_sub_flag=minus, base_dir=root)
    eq({n: w.run_dir.name for n, w in found.items()}, {n: f"{scenario}_{n}_sp_bins_{'gcph_minus_gcsp_' if minus else ''}x" for n in mine}, "runs of the scenario")
    ans = load_helpers.load_fisher_analyses_for_scenario(scenario, gcph_sub_flag=minus, base_dir=root, cosmology=case["cosmology"], res_subdir_name=case["treatment"])
    eq(sorted(ans), sorted(mine), "numbers of bins of the analyses")
    models = {n: model_of(case, r, case["cosmology"], case["treatment"]) for n, r in mine.items()}
    load_helpers.invert_fishers_in_all_analyses(ans)
    for n, an in ans.items():
        check_analysis(an, models[n], case["fids"], f"the analysis with {n} bins")
    asked = [x for x in case["subset"] if x in models[4]]
    if asked:
        some = misc.get_subset_analyses_for_fishers(ans, [x.replace(" + ", "+") for x in asked] if not case["spaces"] else asked)
        eq(sorted(some), sorted(mine), "numbers of bins of the subsets")
        for n, an in some.items():
            check_analysis(an, {x: models[n][x] for x in asked}, case["fids"], f"the subset with {n} bins")
    load_helpers.replace_hybrid_fishers_with_4_bins_equivalents(ans)
    load_helpers.invert_fishers_in_all_analyses(ans)
    for n, an in ans.items():
        check_analysis(an, {x: models[4 if "GCsp(Pk)" in x else n][x] for x in models[n]}, case["fids"], f"the analysis with {n} bins and the spectroscopic matrices of four")

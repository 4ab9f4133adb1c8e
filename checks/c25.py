"""C25: run folders, job directories, links and copies."""
import datetime
import re
from parlib import *
from seyfert.config import main_config as mcfg
from seyfert.utils import filesystem_utils as fsu, general_utils as gu
from seyfert.utils.dir_explorer import DirectoryExplorer
from seyfert.utils.workspace import WorkSpace

CHECK = Check("C25", ["Parameter names neither contain a double underscore nor start or end with an underscore; no name contains a slash.",
                      "Sources of the input files lie outside the run folder they are copied to."])
TASKS = ["PowerSpectrum", "Angular", "Derivative", "Fisher"]
NAME = st.one_of(st.sampled_from(["Omm", "w0", "wa", "bgph1", "bgph10", "bgph11", "aIA", "central", "m_nu", "a", "a_b", "step", "x_step", "p_1", "dvar", "dvar_x"]),
                 st.text("abxzAQ019_", min_size=1, max_size=8)).filter(lambda s: "__" not in s and s.strip("_") == s)
STEP = st.one_of(st.integers(-15, 15), st.integers(-10 ** 6, 10 ** 6))


@CHECK.prop(st.fixed_dictionaries({"jobs": st.lists(st.tuples(NAME, STEP), min_size=1, max_size=30), "names": st.lists(NAME, min_size=1, max_size=8),
                                   "bad": st.text("dvar_stepm019x ", max_size=14)}),
            quick=300, thorough=6000, rule="several parameters, one name within another or steps of several digits")
def job_names(case, ctx):
    jobs, names = sorted({(d, s) for d, s in case["jobs"]}), sorted(set(case["names"]))
    ctx.nontrivial(len(jobs) > 2 and (any(abs(s) > 9 for _, s in jobs) or any("_" in d for d, _ in jobs)))
    dirs = {}
    for d, s in jobs:
        n = fsu.get_cosmology_jobdir_name(dvar=d, step=s)
        check("/" not in n and n not in dirs, f"{n} names the directory of {dirs.get(n)} and {(d, s)}")
        dirs[n] = (d, s)
        got = fsu.get_dvar_step_from_cosmology_jobdir_name(n)
        eq((got, type(got[1])), ((d, s), int), f"parameter and step of {n}")
        eq(WorkSpace.getDvarStepFromCosmoDirName(n), (d, s), f"parameter and step of {n}")
        for bad in (n + "x", "x" + n, n + "_step", n[5:], n.replace("step", "stop")):
            try:
                got = fsu.get_dvar_step_from_cosmology_jobdir_name(bad)
            except Exception:
                continue
            eq(fsu.get_cosmology_jobdir_name(*got), bad, f"{bad} was decoded as {got}")
    pairs = {}
    for a in names:
        n = fsu.get_derivative_jobdir_name_from_dvar(a)
        eq(WorkSpace.getDvarFromDerivativeDirName(n), a, f"parameter of {n}")
        for b in names:
            n = fsu.get_fisher_jobdir_name_from_dvar1_dvar2(a, b)
            check(n not in pairs, f"{n} names the directory of {pairs.get(n)} and {(a, b)}")
            pairs[n] = (a, b)
            eq(tuple(WorkSpace.getDvarsFromFisherDirName(n)), (a, b), f"parameters of {n}")
    try:
        got = fsu.get_dvar_step_from_cosmology_jobdir_name(case["bad"])
    except Exception:
        pass
    else:
        check("_step_" in case["bad"] and str(abs(got[1])) in case["bad"] and got[0] in case["bad"], f"{case['bad']!r} was decoded as {got}")


WORD = st.one_of(st.sampled_from(["run", "ph_sp_wl", "optimistic_12_sp_bins", "1.2.3", "x_1.3.2_2021-03-07T19-23-56", "v1"]), st.text("abc_.-0129T", min_size=1, max_size=10))
VER = st.tuples(st.one_of(st.integers(0, 9), st.integers(0, 120)), st.one_of(st.integers(0, 9), st.integers(0, 120)), st.one_of(st.integers(0, 9), st.integers(0, 120)),
                st.booleans()).map(lambda t: f"{t[0]}.{t[1]}.{t[2]}" + ("dev" if t[3] else ""))


@CHECK.prop(st.fixed_dictionaries({"id": WORD, "ver": VER, "t": st.datetimes(min_value=datetime.datetime(1000, 1, 1), max_value=datetime.datetime(9999, 12, 31)).map(
    lambda t: t.replace(microsecond=0).isoformat()), "cut": st.integers(1, 19)}), quick=300, thorough=5000, rule="identifier with underscores or a version number of several digits")
def run_ids(case, ctx):
    t = datetime.datetime.fromisoformat(case["t"])
    ctx.nontrivial("_" in case["id"] or len(case["ver"]) > 5)
    stamp = t.strftime("%Y-%m-%dT%H-%M-%S").rjust(19, "0")
    full = f"{case['id']}_{case['ver']}_{stamp}"
    eq(gu.split_run_id(full), (case["id"], case["ver"], t), f"parts of {full}")
    ctx.label("long version" if len(case["ver"]) > 5 else "short version")
    cut = full[:-case["cut"]]
    eq(gu.split_run_id(cut), (cut, None, None), "identifier without a complete time stamp")
    if not re.search(r"\d+\.\d+\.\d+(dev)?_\d{4}-", case["id"]):
        eq(gu.split_run_id(case["id"]), (case["id"], None, None), "identifier alone")


# ---------------------------------------------------------------- job files
TREE = st.fixed_dictionaries({"pmm": st.lists(st.tuples(NAME, STEP), max_size=6), "cl": st.lists(st.tuples(NAME.filter(lambda n: "central" not in n), STEP), max_size=8), "central": st.booleans(),
                              "der": st.lists(NAME, max_size=6), "fish": st.lists(st.tuples(NAME, NAME), max_size=5), "files": st.lists(st.integers(0, 2), min_size=14, max_size=14),
                              "stray": st.lists(st.sampled_from(["PowerSpectrum/log.txt", "Angular/note.txt", "Derivative/x.log", "Angular/{}/logfile.log", "Angular/{}/acl.h5", "Angular/{}/cls.csv",
                                                                 "Derivative/{}/cl.h5"]), max_size=4), "ask": st.lists(st.tuples(NAME, STEP), max_size=3), "rel": st.booleans()})


@CHECK.prop(TREE, quick=200, thorough=3000, rule="jobs of several parameters and steps, some without or with several result files")
def job_files(case, ctx):
    tmp = ctx.tmp()
    run = tmp / "run"
    run.mkdir()
    if case["rel"]:
        os.chdir(tmp)
    ws = WorkSpace("run" if case["rel"] else str(run))
    ctx.nontrivial(len(set(map(tuple, case["cl"]))) > 2 and len(case["pmm"]) > 1)
    for t in TASKS:
        (run / t).mkdir()
    nfiles = iter(case["files"] * 10)
    pmm, cl, der = set(map(tuple, case["pmm"])), sorted(set(map(tuple, case["cl"]))), sorted(set(case["der"]))
    for d, s in pmm:
        p = run / "PowerSpectrum" / fsu.get_cosmology_jobdir_name(d, s)
        p.mkdir()
        (p / "p_mm.h5").write_text(f"{d} {s}")
    if case["central"]:
        cl.append(("central", 0))
    counts, dcounts = {}, {}
    for d, s in cl:
        p = run / "Angular" / fsu.get_cosmology_jobdir_name(d, s)
        p.mkdir()
        counts[(d, s)] = next(nfiles)
        for i in range(counts[(d, s)]):
            (p / f"cl_{i}.h5").write_text(f"{d} {s} {i}")
    for d in der:
        p = run / "Derivative" / d
        p.mkdir()
        dcounts[d] = next(nfiles)
        for i in range(dcounts[d]):
            (p / f"cl_derivatives_{i}.h5").write_text(f"{d} {i}")
    for a, b in case["fish"]:
        (run / "Fisher" / fsu.get_fisher_jobdir_name_from_dvar1_dvar2(a, b)).mkdir(exist_ok=True)
    for f in case["stray"]:
        which = (fsu.get_cosmology_jobdir_name(*cl[0]) if cl else None) if f.startswith("Angular") else (der[0] if der else None)
        if "{}" not in f or which:
            (run / f.format(which)).write_text("stray")
    before = sorted(str(p) for p in tmp.rglob("*"))
    eq(ws.collectPmmVariationParams(), {d for d, _ in pmm}, "parameters with power spectra")
    eq(ws.collectClVariationParams(), {d for d, _ in cl} - {"central"}, "parameters with angular spectra")
    eq(ws.collectDerivativeParams(), set(der), "parameters with derivatives")
    eq({tuple(p) for p in ws.collectFisherParamsPairs()}, set(map(tuple, case["fish"])), "parameter pairs with Fisher elements")
    got = ws.collectClVariationDirectories()
    eq({k: v.resolve() for k, v in got.items()}, {(d, s): (run / "Angular" / fsu.get_cosmology_jobdir_name(d, s)).resolve() for d, s in cl if d != "central"}, "directories of the variations")
    for d, s in pmm:
        eq(ws.getPowerSpectrumFile(d, s).read_text(), f"{d} {s}", "power spectrum file")
    for (d, s), n in counts.items():
        ctx.label(f"{n} files")
        if n == 1:
            eq(ws.getClFile(dvar=d, step=s).read_text(), f"{d} {s} 0", "angular spectra file")
        else:
            raises(Exception, lambda: ws.getClFile(dvar=d, step=s), f"{n} angular spectra files of {d} {s}")
    for d, n in dcounts.items():
        if n == 1:
            eq(ws.getClDerivativeFile(d).read_text(), f"{d} 0", "derivative file")
        else:
            raises(Exception, lambda: ws.getClDerivativeFile(d), f"{n} derivative files of {d}")
    if all(n == 1 for n in dcounts.values()):
        eq({d: p.read_text() for d, p in ws.collectClDerivativeFiles().items()}, {d: f"{d} 0" for d in der}, "derivative files")
    else:
        raises(Exception, ws.collectClDerivativeFiles, "missing or ambiguous derivative files")
    for d, s in case["ask"]:
        if (d, s) not in pmm:
            check(not ws.getPowerSpectrumFile(d, s).exists(), f"a power spectrum of {d} {s} was found")
        if (d, s) not in cl:
            raises(Exception, lambda: ws.getClFile(d, s), f"angular spectra of {d} {s}")
    eq(sorted(str(p) for p in tmp.rglob("*")), before, "asking for files leaves the folder alone")


# ---------------------------------------------------------------- links
LINKS = st.fixed_dictionaries({
    "ext": st.dictionaries(st.sampled_from(TASKS), st.fixed_dictionaries({"where": st.sampled_from(["other", "other/deep", "", "via"]), "form": st.sampled_from(["abs", "rel", "dots"]),
                                                                         "missing": st.sampled_from([False] * 6 + [True]), "delta": st.booleans()}), max_size=4),
    "unknown": st.sampled_from([None] * 5 + ["PowerSpectra", "angular", "final_results"]), "here": st.lists(st.sampled_from(TASKS), max_size=2, unique=True),
    "run": st.sampled_from(["run", "a/b/run", "linked/run"]), "cwd": st.sampled_from(["", "a/b", "other"]), "relrun": st.booleans(), "relative": st.booleans(), "delta": st.booleans(), "move": st.booleans()})


@CHECK.prop(LINKS, quick=250, thorough=4000, rule="several external directories given relatively, or run folder reached through a link")
def links(case, ctx):
    tmp = ctx.tmp()
    root = tmp / "root"
    for d in ("a/b", "other/deep", "real/very/deep", "far/away"):
        (root / d).mkdir(parents=True)
    (root / "linked").symlink_to(root / "real/very/deep")
    (root / "via").symlink_to("far/away")
    run = root / case["run"]
    run.mkdir()
    cwd = root / case["cwd"]
    os.chdir(cwd)
    ext, ok, want, n = {}, True, {}, 0
    ctx.nontrivial(len(case["ext"]) > 1 and (case["run"] == "linked/run" or any(e["form"] != "abs" for e in case["ext"].values())))
    ctx.label("relative links" if case["relative"] else "absolute links", case["run"])
    for t in case["here"]:
        (run / t).mkdir()
        (run / t / "mine").write_text(t)
    for t, e in case["ext"].items():
        n += 1
        d = root / e["where"] / f"run{n}" / "data" / t
        d.parent.mkdir(parents=True)
        if not e["missing"]:
            d.mkdir()
            (d / "mark").write_text(t)
        if e["delta"]:
            (d.parent / "delta_cls.h5").write_text(t)
        ext[t] = {"abs": str(d), "rel": os.path.relpath(d.parent.resolve(), Path.cwd()) + "/" + t, "dots": d.parent / ".." / "data" / t}[e["form"]]
        if t in case["here"]:
            continue
        if e["missing"] or (t == "Angular" and case["delta"] and not e["delta"]):
            ok = False
        want[t] = d
    if case["unknown"]:
        ext[case["unknown"]] = str(root / "other")
    ws = WorkSpace(os.path.relpath(run.resolve(), Path.cwd()) if case["relrun"] else run)
    before = {str(p): os.lstat(p).st_mtime_ns for p in tmp.rglob("*") if run.resolve() not in p.resolve().parents and p.resolve() != run.resolve()}

    def link():
        ws.symlinkToExternalDirs(ext, src_relative_to_rundir=case["relative"], link_delta_cls=case["delta"])
    if case["unknown"]:
        raises(KeyError, link, "unknown task")
        eq(sorted(p.name for p in run.iterdir()), sorted(case["here"]), "nothing is linked when a task is unknown")
        return
    if ok:
        link()
    else:
        raises(FileNotFoundError, link, "missing source of a link")
    for t in TASKS:
        p = run / t
        if t in case["here"]:
            check(not p.is_symlink() and (p / "mine").read_text() == t, f"{t} of the run folder was replaced")
        elif t in want and ok:
            check(p.is_symlink() and p.exists(), f"{t} is not linked to anything")
            check(os.path.samefile(p, want[t]) and (p / "mark").read_text() == t, f"{t} is linked to {os.path.realpath(p)} rather than {want[t]}")
            eq(os.path.isabs(os.readlink(p)), not case["relative"], "kind of link")
        elif t not in want:
            check(not os.path.lexists(p), f"{t} appeared in the run folder")
        else:
            check(not os.path.lexists(p) or os.path.samefile(p, want[t]), f"{t} is linked elsewhere")
    if ok:
        linked = "Angular" in want and case["delta"]
        eq(os.path.lexists(run / "delta_cls.h5"), linked, "the spectra's variances are linked with the spectra")
        if linked:
            eq((run / "delta_cls.h5").read_text(), "Angular", "linked variances")
        link()
        for t, d in want.items():
            check(os.path.samefile(run / t, d), f"{t} was linked again elsewhere")
        if case["move"] and case["relative"] and case["run"] != "linked/run":
            os.chdir(tmp)
            root.rename(tmp / "moved")
            for t in want:
                eq((tmp / "moved" / case["run"] / t / "mark").read_text(), t, "relative link after moving everything together")
            return
    after = {str(p): os.lstat(p).st_mtime_ns for p in tmp.rglob("*") if str(p) in before}
    eq(after, before, "nothing outside the run folder changes")


# ---------------------------------------------------------------- input files
FNAME = st.one_of(st.sampled_from(["config.json", "params.json", "angular.json", "Angular_config.json", "Fisher_params.json", "c d.json", "forecast", "input_files_dict.json"]),
                  st.text("abc_. ", min_size=1, max_size=6).filter(lambda s: s.strip(".")))
INPUTS = st.fixed_dictionaries({"files": st.fixed_dictionaries({k: st.tuples(FNAME, st.booleans()) for k in ["forecast"] + TASKS}), "order": st.permutations(["forecast"] + TASKS), "pars": collection(),
                                "run": st.sampled_from(["w/run", "w/other"]), "data": st.sampled_from(["data", "data/../data", "absent"]), "datastr": st.booleans(), "rel": st.booleans(), "seed": st.integers(0, 9)})


@CHECK.prop(st.lists(INPUTS, min_size=1, max_size=3), quick=100, thorough=1500, rule="two of the files have the same name, or several folders are written one after the other")
def input_files(case, ctx):
    tmp = ctx.tmp()
    os.chdir(tmp)
    (tmp / "data").mkdir()
    (tmp / "w").mkdir()
    state = {}
    ctx.nontrivial(len(case) > 1 or len({v[0] for v in case[0]["files"].values()} | {"params.json"}) < 6)
    for i, step in enumerate(case):
        src = {}
        for k in step["order"]:
            name, same = step["files"][k]
            d = tmp / f"src{i}" / ("shared" if same else k)
            d.mkdir(parents=True, exist_ok=True)
            if not (d / name).exists():
                (d / name).write_text(json.dumps({"who": [i, k], "seed": step["seed"]}))
            src[k] = (d / name).relative_to(tmp) if step["rel"] else str(d / name)
        contents = {k: Path(p).read_text() for k, p in src.items()}
        run = tmp / step["run"]
        run.mkdir(exist_ok=True)
        pars = build(step["pars"])
        outside = {str(p): p.read_bytes() for p in tmp.rglob("*") if p.is_file() and run not in p.parents}
        ws = WorkSpace(step["run"] if step["rel"] else run)
        ws.createInputFilesDir(src_input_files=src, phys_pars=pars, input_data_dir=step["data"] if step["datastr"] else Path(step["data"]))
        eq({str(p): p.read_bytes() for p in tmp.rglob("*") if p.is_file() and run not in p.parents}, outside, "files outside the run folder")
        eq({p.relative_to(run).parts[0] for p in run.rglob("*")}, {"input_files_dir", "input_files_dict.json"}, "what the run folder holds")
        state[step["run"]] = (contents, step)
        ctx.label("same names" if len({v[0] for v in step["files"].values()} | {"params.json"}) < 6 else "distinct names")
        os.chdir(tmp / "data" if i % 2 else tmp)
        for r, (want, st_) in state.items():
            w = WorkSpace(tmp / r)
            eq(Path(w.getForecastConfigFilePath()).read_text(), want["forecast"], f"forecast file of {r}")
            for t in TASKS:
                eq(w.getTaskJSONPath(t).read_text(), want[t], f"{t} file of {r}")
                cfg = w.getTaskJSONConfiguration(t)
                eq((type(cfg), dict(cfg)), (getattr(mcfg, f"{t}Config"), {**json.loads(want[t]), "config_type": f"{t}Config"}), f"{t} configuration of {r}")
            eq({t: dict(c)["who"] for t, c in w.getTasksJSONConfigs().items()}, {t: json.loads(want[t])["who"] for t in TASKS}, "all configurations")
            back = w.getParamsCollection()
            check(back == build(st_["pars"]) and list(back) == [p["name"] for p in st_["pars"]["params"]], f"parameters of {r}")
            eq(Path(w.getParamsJSONFile()).resolve().parent, (tmp / r / "input_files_dir").resolve(), "where the parameters are")
            if st_["data"] != "absent":
                eq(w.getInputDataDirPath().resolve(), (tmp / "data").resolve(), "input data directory")
            raises(KeyError, lambda: w.getTaskJSONPath("Nope"), "unknown task")
        os.chdir(tmp)


# ---------------------------------------------------------------- searching for runs
RUN = st.one_of(st.tuples(st.just(0), st.sampled_from(["optimistic", "pessimistic"]), st.none()), st.tuples(st.integers(1, 2), st.sampled_from(["optimistic", "pessimistic"]), st.integers(1, 120)))
DIRNAME = st.tuples(st.sampled_from(["", "", "", "x_", "my run_"]), RUN, st.sampled_from(["", "_flat", "_ph", "_flat_ph", "-2"])).map(lambda t: (t[0], *t[1], t[2]))
FILTERS = st.fixed_dictionaries({"dirs": st.lists(st.tuples(DIRNAME, st.integers(0, 2)), max_size=8), "junk": st.lists(st.sampled_from(["abc", "scenario", "run_other", "optimistic"]), max_size=3),
                                 "recursive": st.booleans(), "pattern": st.sampled_from([None, "_(?P<tag>flat|ph)", "zzz"]), "containing": st.sampled_from([None, ["flat"], ["1", "ph"]]),
                                 "without": st.sampled_from([None, ["flat"], ["2"], ["flat", "ph"], ["_ph", "pess"]]), "short": st.booleans(), "files": st.booleans()})


@CHECK.prop(FILTERS, quick=200, thorough=3000, rule="several run folders, some of them filtered out")
def search_runs(case, ctx):
    tmp = ctx.tmp()
    top = tmp / "top"
    top.mkdir()
    info = {}
    for (pre, kind, scen, n, post), depth in case["dirs"]:
        name = pre + [f"run_{scen}", f"{scen}_{n}_sp_bins_", f"scenario_{scen}__n_sp_bins_{n}"][kind] + post
        p = top.joinpath(*["sub", "deep"][:depth], name)
        p.mkdir(parents=True, exist_ok=True)
        if pre == "":
            info[p] = {"scenario": scen, **({"nbins": str(n)} if kind else {})}
    for j in case["junk"]:
        (top / j).mkdir(exist_ok=True)
    if case["files"]:
        (top / "run_optimistic_file").write_text("")
    want = {}
    for p, groups in info.items():
        if p.parent != top and not case["recursive"]:
            continue
        name, g = p.name, dict(groups)
        if case["pattern"]:
            m = re.search(case["pattern"], name)
            if not m:
                continue
            g.update(m.groupdict())
        if case["containing"] and not all(c in name for c in case["containing"]) or case["without"] and any(c in name for c in case["without"]):
            continue
        if case["short"] and len(name) > 24:
            continue
        want[str(p)] = g
    ctx.nontrivial(0 < len(want) < len(info))
    opts = {"recursive": case["recursive"], "add_patterns": [case["pattern"]] if case["pattern"] else None, "containing": case["containing"], "not_containing": case["without"],
            "add_filters": [lambda n: len(n) <= 24] if case["short"] else None}
    ex = DirectoryExplorer(str(top))
    eq(ex.selectDirectories(**opts), want, "selected run folders")
    got = ex.selectWorkspaces(**opts)
    eq(sorted(str(w.run_dir) for w in got), sorted(want), "selected workspaces")
    for i, w in enumerate(got):
        (w.run_dir / "run_metadata.json").write_text(json.dumps({"run": i}))
    eq({str(w.run_dir): w.run_metadata for w in ex.selectWorkspaces(**opts)}, {str(w.run_dir): {"run": i} for i, w in enumerate(got)}, "metadata of the workspaces")


@CHECK.prop(st.fixed_dictionaries({"pre": st.text("abc_", max_size=5), "a": st.tuples(st.booleans(), st.booleans(), st.booleans()), "b": st.tuples(st.booleans(), st.booleans(), st.booleans()),
                                   "files": st.lists(st.sampled_from(["a.h5", "ab.h5", "b1.h5", "b1.txt", "a.txt", "b.h5", "a1.h5"]), max_size=3, unique=True), "pat": st.sampled_from(["a*.h5", "*", "*.h5", "b1*"]),
                                   "meta": st.one_of(st.none(), st.dictionaries(NAME, st.integers(), max_size=3)), "res": st.tuples(NAME, NAME, NAME)}),
            quick=150, thorough=2000, rule="several files match, or the switches differ")
def lookups(case, ctx):
    import fnmatch
    tmp = ctx.tmp()
    ctx.nontrivial(case["a"] != case["b"])
    na, nb = (fsu.get_fisher_dirname_from_switches(prefix=case["pre"], wlph=s[0], wlsp=s[1], phsp=s[2]) for s in (case["a"], case["b"]))
    eq(na == nb, tuple(case["a"]) == tuple(case["b"]), f"{na} and {nb} name the same switches")
    run = tmp / "run"
    run.mkdir()
    d = run / "d"
    d.mkdir()
    for f in case["files"]:
        (d / f).write_text(f)
    hits = [f for f in case["files"] if fnmatch.fnmatchcase(f, case["pat"])]
    ctx.label(f"{len(hits)} match")
    if len(hits) == 1:
        eq(fsu.get_file_from_dir_with_pattern(d, case["pat"]).read_text(), hits[0], "the one file matching the pattern")
    else:
        raises(Exception, lambda: fsu.get_file_from_dir_with_pattern(d, case["pat"]), f"{len(hits)} files matching the pattern")
    ws = WorkSpace(run)
    if case["meta"] is not None:
        ws.metadata_file.write_text(json.dumps(case["meta"]))
    eq(ws.getRunMetadata(), case["meta"] or {}, "metadata")
    eq(ws.getResultsDir(*case["res"]), run.joinpath(*case["res"]), "results directory")
    paths = [ws.niz_file, ws.delta_cls_file, ws.metadata_file, ws.auto_f_ells_file, ws.base_fishers_dir, ws.input_files_dir, ws.pmm_dir, ws.cl_dir, ws.der_dir, ws.fish_elems_dir, ws.final_results_dir]
    eq((len(set(paths)), {p.parent for p in paths}), (len(paths), {run}), "every part of a run folder has its own place")

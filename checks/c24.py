"""C24: configuration files and command-line options."""
import argparse
import copy
import runpy
from coslib import *
from seyfert.config import cmd_line, main_config as mcfg
from seyfert.config.forecast_config import ForecastConfig
from seyfert.config.probe_config import ProbeConfig
from seyfert.cosmology.parameter import PhysicalParameter as PP
from seyfert.file_io.json_io import JSONForecastConfig
from seyfert.main import task_runners
from seyfert.utils import filesystem_utils as fsu, general_utils as gu

CHECK = Check("C24", ["Run identifiers given on the command line are not bare numbers or truth values.", "The scripts' own work is replaced by a recorder of the options they pass on."])
WORD = st.text("abcdefgXYZ_019", min_size=1, max_size=8).filter(lambda s: s[0].isalpha())
NUM = st.one_of(st.integers(-50, 5000), finite(-1e6, 1e6), nice(0, 3, 30))
LEAF = st.one_of(NUM, WORD, st.booleans(), st.none())
TREE = st.recursive(LEAF, lambda c: st.one_of(st.lists(c, max_size=3), st.dictionaries(WORD, c, max_size=3)), max_leaves=6)
RULES = ["simpson", "trapz", "newton_cotes", "romb"]

PS = st.fixed_dictionaries({"redshift_grid": st.fixed_dictionaries({"z_min": nice(0.001, 0.5, 50), "z_max": nice(1, 4, 60), "n_redshifts": st.integers(2, 40)}),
                            "boltzmann_codes_settings": st.fixed_dictionaries({"code": st.sampled_from(["CAMB", "CLASS"]),
                                                                              "camb": st.fixed_dictionaries({"k_max": NUM, "ini_filename": WORD}), "class": st.dictionaries(WORD, NUM, max_size=3)})})
ANG = st.fixed_dictionaries({"cl_integration_settings": st.fixed_dictionaries({"cl": st.sampled_from(RULES), "lensing_efficiency": st.sampled_from(RULES)}),
                             "limber_pmm_spline_settings": st.fixed_dictionaries({k: st.one_of(st.integers(0, 5), st.integers(0, 5).map(str)) for k in ("kx", "ky", "s")})})
DER = st.fixed_dictionaries({"dvar": WORD, "angular_dir": WORD})
FISH = st.fixed_dictionaries({"shot_noise_phsp_xc_factor": nice(0, 2, 20), "fisher_formula": WORD,
                              "cl_derivatives": st.dictionaries(st.tuples(st.sampled_from(PROBES), st.sampled_from(PROBES)).map("_".join), st.booleans(), max_size=8)})
KINDS = {"PowerSpectrum": PS, "Angular": ANG, "Derivative": DER, "Fisher": FISH}


@st.composite
def main_cfg(draw):
    task = draw(st.sampled_from(sorted(KINDS)))
    return {"task": task, "data": draw(KINDS[task]), "extra": draw(st.dictionaries(WORD.map(lambda s: "zz" + s), TREE, max_size=3)),
            "set": draw(st.lists(st.tuples(st.integers(0, 5), st.one_of(NUM, WORD)), max_size=5)), "typed": draw(st.booleans()), "bad": draw(WORD)}


SETTERS = {"PowerSpectrum": [("z_min", ["redshift_grid", "z_min"]), ("z_max", ["redshift_grid", "z_max"]), ("n_redshifts", ["redshift_grid", "n_redshifts"]),
                             ("boltzmann_code", ["boltzmann_codes_settings", "code"]), ("camb_ini_name", ["boltzmann_codes_settings", "camb", "ini_filename"])],
           "Derivative": [("cl_dir", ["angular_dir"])], "Angular": [], "Fisher": []}
GETTERS = {"PowerSpectrum": SETTERS["PowerSpectrum"] + [("camb_settings", ["boltzmann_codes_settings", "camb"]), ("class_settings", ["boltzmann_codes_settings", "class"]),
                                                        ("boltzmann_codes_settings", ["boltzmann_codes_settings"])],
           "Derivative": SETTERS["Derivative"],
           "Angular": [("cl_integration_method", ["cl_integration_settings", "cl"]), ("lensing_efficiency_integration_method", ["cl_integration_settings", "lensing_efficiency"]),
                       ("cl_integration_settings", ["cl_integration_settings"]), ("limber_pmm_spline_settings", ["limber_pmm_spline_settings"])],
           "Fisher": [("shot_noise_phsp_xc_factor", ["shot_noise_phsp_xc_factor"]), ("fisher_formula", ["fisher_formula"]), ("cl_derivatives", ["cl_derivatives"])]}


def at(d, path):
    for k in path:
        d = d[k]
    return d


@CHECK.prop(main_cfg(), quick=250, thorough=4000, rule="several options changed after loading, or unknown extra sections kept")
def main_configs(case, ctx):
    tmp = ctx.tmp()
    task, want = case["task"], {**case["data"], **case["extra"]}
    if case["typed"]:
        want["config_type"] = f"{task}Config"
    ctx.label(task)
    ctx.nontrivial(len(case["set"]) > 1 or len(case["extra"]) > 1)
    f = tmp / "c.json"
    f.write_text(json.dumps(want))
    cls = getattr(mcfg, f"{task}Config")
    cfg, other = cls.fromJSON(f), mcfg.config_for_task(task, str(f))
    want["config_type"] = f"{task}Config"
    eq(type(other) is cls, True, "class of the configuration of a task")
    eq((dict(cfg), dict(other), cfg == other), (want, want, True), "loaded options")
    for attr, path in GETTERS[task]:
        eq(getattr(cfg, attr), at(want, path), attr)
    if task == "PowerSpectrum":
        g = want["redshift_grid"]
        close(cfg.z_grid, [g["z_min"] + (g["z_max"] - g["z_min"]) * i / (g["n_redshifts"] - 1) for i in range(g["n_redshifts"])], "redshift grid", 1e-12)
        eq((cfg.z_grid[0], cfg.z_grid[-1]), (g["z_min"], g["z_max"]), "ends of the redshift grid")
        eq(Path(cfg.camb_ini_path), fsu.config_files_dir() / want["boltzmann_codes_settings"]["camb"]["ini_filename"], "path of the ini file")
    if task == "Angular":
        eq([cfg.limber_spline_kx, cfg.limber_spline_ky, cfg.limber_spline_s], [int(want["limber_pmm_spline_settings"][k]) for k in ("kx", "ky", "s")], "spline settings")
    if task == "Fisher":
        flags = want["cl_derivatives"]
        for p in PROBES:
            for q in PROBES:
                k, r = f"{p}_{q}", f"{q}_{p}"
                if k in flags or r in flags:
                    eq(cfg.getXCDerivativeFlag(k), flags[k] if k in flags else flags[r], f"presence flag of the derivative of {k}")
                else:
                    raises(KeyError, lambda: cfg.getXCDerivativeFlag(k), "unknown derivative")
    want = copy.deepcopy(want)
    for i, v in case["set"]:
        if not SETTERS[task]:
            break
        attr, path = SETTERS[task][i % len(SETTERS[task])]
        setattr(cfg, attr, v)
        at(want, path[:-1])[path[-1]] = v
        eq(dict(cfg), want, f"options after changing {attr}")
    g2 = tmp / "d.json"
    cfg.writeToJSON(g2)
    eq(json.loads(g2.read_text()), want, "saved options")
    again = cls(json_input=g2)
    eq((dict(again), again == cfg), (want, True), "saved and reloaded options")
    eq(dict(other), dict(cls.fromJSON(f)), "another configuration loaded from the same file is left alone")
    raises(ValueError, lambda: mcfg.config_for_task(case["bad"], f), "unknown task")
    raises(ValueError, lambda: mcfg.config_for_task(f"{task}Config", f), "a class is not a task")
    raises(FileNotFoundError, lambda: cls.fromJSON(tmp / "absent.json"), "missing file")


# ---------------------------------------------------------------- forecast configuration
@st.composite
def forecast(draw):
    probes = draw(st.permutations(PROBES))[:draw(st.integers(1, 4))]
    cosmo = draw(st.permutations(sorted(FID_PARS)))[:draw(st.integers(1, 10))]
    per = {}
    for p in probes:
        per[p] = {"absent": p != probes[0] and draw(st.integers(0, 4)) == 0, "marg": draw(st.booleans()), "method": draw(st.sampled_from(["SteM", "Analytic", "numeric"])),
                  "where": draw(st.lists(st.sampled_from(["alias", "long", "base"]), min_size=1, max_size=3, unique=True)), "n": draw(st.integers(1, 3)),
                  "extra": draw(st.one_of(st.none(), st.lists(st.tuples(st.sampled_from(["aIA", "etaIA", "xx", "OVER"]), st.booleans(), nice(-2, 2, 40)), max_size=3,
                                                              unique_by=lambda t: t[0]))),
                  "ells": draw(st.one_of(st.none(), st.lists(st.tuples(nice(2, 5000, 4998), nice(0.5, 9, 34)), min_size=1, max_size=5, unique_by=lambda t: t[0]))), "seed": draw(st.integers(0, 10 ** 6))}
    return {"probes": per, "order": list(probes), "cosmo": [[n, draw(nice(-1.5, 1.5, 30)), draw(st.booleans()), draw(nice(0.5, 7, 13)), draw(st.booleans())] for n in cosmo],
            "f_sky": draw(nice(0.05, 1, 19)), "flat": draw(st.booleans()), "disps": sorted(draw(st.sets(st.integers(1, 60), min_size=1, max_size=7))), "noise": draw(st.sampled_from([None, "a.h5", "missing"])),
            "miss": draw(st.sampled_from([None, None, "bias", "density", "key", "noise"])), "nsp": draw(st.integers(1, 40)), "opts": draw(st.lists(st.tuples(WORD, st.one_of(st.booleans(), st.integers(0, 9), WORD)), max_size=3)),
            "preload": draw(st.booleans())}


def folder(tmp, probe, where):
    d = {"alias": tmp / ALIAS[probe], "long": tmp / probe, "base": tmp}[where]
    d.mkdir(exist_ok=True)
    return d


@CHECK.prop(forecast(), quick=120, thorough=2500, rule="two or more probes present, with nuisance parameters of their own")
def forecast_configs(case, ctx):
    tmp = ctx.tmp()
    data_dir = tmp / "data"
    data_dir.mkdir()
    sections, where = {}, {}
    want_nuis = {}
    for p in case["order"]:
        b = case["probes"][p]
        sec = {"density_file": f"d_{p}.h5", "marginalize_bias_flag": b["marg"], "bias_derivative_method": b["method"], "bias_file": f"b_{p}.h5"}
        first = min(b["where"], key=["alias", "long", "base"].index)
        for k, w in enumerate(b["where"]):  # the same name in several places: the probe's own folders come first
            d = folder(data_dir, p, w)
            (d / sec["density_file"]).touch()
            if p != "Lensing":
                vals = {f"{PREFIX[p]}{i}": 1 + 0.1 * i + (0 if w == first else 5 + k) for i in range(b["n"])}
                bias_file(d / sec["bias_file"], p, "piecewise", list(np.linspace(0.5, 2, b["n"] + 1)), vals)
        where[p] = folder(data_dir, p, first)
        if b["ells"] is not None:
            sec["ell_external_filename"] = f"ells_{p}.txt"
            np.savetxt(data_dir / f"ells_{p}.txt", b["ells"])
        if p == "Lensing":
            for k in ("marginalize_bias_flag", "bias_derivative_method", "bias_file"):
                sec.pop(k)
        nuis = {}
        if p != "Lensing":
            for i in range(b["n"]):
                nuis[f"{PREFIX[p]}{i}"] = (1 + 0.1 * i, b["marg"], b["method"], p)
        if b["extra"] is None:
            sec["extra_nuisance_parameters"] = None
        else:
            sec["extra_nuisance_parameters"] = []
            for name, free, fid in b["extra"]:
                name = f"{name}{ALIAS[p]}" if name != "OVER" else (f"{PREFIX[p]}0" if p != "Lensing" else "wlover")
                sec["extra_nuisance_parameters"].append({"name": name, "fiducial": fid, "kind": PP.NUISANCE_PAR_STRING, "is_free_parameter": free, "probe": p, "stem_factor": 2.0})
                nuis[name] = (fid, free, "SteM", p)
        if not b["absent"]:
            want_nuis[p] = nuis
        sections[p] = sec
    absent = [p for p in case["order"] if case["probes"][p]["absent"]]
    present = [p for p in case["order"] if p not in absent]
    pars = [{"name": n, "fiducial": v, "kind": PP.COSMO_PAR_STRING, "is_free_parameter": free, "stem_factor": sf, "derivative_method": "SteM", "units": "None",
             **({"current_value": v} if cur else {})} for n, v, free, sf, cur in case["cosmo"]]
    noise = {"missing": "gone.h5"}.get(case["noise"], case["noise"])
    data = forecast_json(sections, params=pars, f_sky=case["f_sky"], flat=case["flat"], disps=[d / 1000 for d in case["disps"]], shot_noise_file=noise, absent=absent)
    for sec in data["probes"].values():
        if sec["extra_nuisance_parameters"] is None:
            del sec["extra_nuisance_parameters"]
    data["synthetic_opts"]["n_sp_bins"] = case["nsp"]
    data["synthetic_opts"].update({"y" + k: v for k, v in case["opts"]})
    if case["noise"] == "a.h5":
        (data_dir / "shot_noise").mkdir()
        (data_dir / "shot_noise" / "a.h5").touch()
    for p in absent:  # nothing of an absent probe is needed
        for w in case["probes"][p]["where"]:
            for n in ("density_file", "bias_file"):
                if n in sections[p]:
                    (folder(data_dir, p, w) / sections[p][n]).unlink(missing_ok=True)
    f = tmp / "f.json"
    f.write_text(json.dumps(data))
    ctx.nontrivial(len(present) > 1 and sum(bool(v) for v in want_nuis.values()) > 1)
    load = lambda: ForecastConfig(input_file=f, input_data_dir=str(data_dir) if case["preload"] else data_dir, load_phys_params=case["preload"])
    if case["noise"] == "missing":
        ctx.label("missing shot noise")
        raises(FileNotFoundError, load, "missing shot noise file")
        return
    fc = load()
    if not case["preload"]:
        eq(fc.phys_pars, None, "parameters are loaded when asked for")
        fc.loadPhysicalParametersFromJSONConfig()
    eq(fc.present_probes, present, "present probes")
    eq((fc.survey_f_sky, fc.is_universe_flat, fc.n_sp_bins, fc.scenario, fc.shot_noise_sp_reduced), (case["f_sky"], case["flat"], case["nsp"], "optimistic", False), "survey options")
    eq(fc.shot_noise_file, None if noise is None else data_dir / "shot_noise" / noise, "shot noise file")
    pp = fc.phys_pars
    eq((pp.is_universe_flat, dict(pp.stem_dict)), (case["flat"], {s * (i + 1): s * d / 1000 for i, d in enumerate(case["disps"]) for s in (1, -1)}), "steps of the derivatives")
    got = {n: (q.fiducial, q.current_value, q.is_free_parameter, q.stem_factor, q.kind, q.derivative_method, q.probe) for n, q in pp.items()}
    want = {n: (v, v, free, sf, PP.COSMO_PAR_STRING, "SteM", None) for n, v, free, sf, _ in case["cosmo"]}
    for p, nuis in want_nuis.items():
        for n, (fid, free, meth, probe) in nuis.items():
            want[n] = (fid, fid, free, 2.0 if meth == "SteM" and n in {e["name"] for e in sections[p]["extra_nuisance_parameters"] or []} else 1.0, PP.NUISANCE_PAR_STRING, meth, probe)
    eq(got, want, "parameters")
    eq(list(fc.nuisance_parameters), [n for n in want if want[n][4] == PP.NUISANCE_PAR_STRING], "nuisance parameters")
    eq(set(fc.present_cosmological_parameters), {n for n, _, free, _, _ in case["cosmo"] if free}, "free cosmological parameters")
    eq(fc.cosmo_pars_fiducials, {n: v for n, v, *_ in case["cosmo"]}, "fiducial values")
    for p in present:
        cfg = fc[p]
        eq((cfg.long_name, cfg.alias_name), (p, ALIAS[p]), "names of the probe")
        eq(cfg.density_init_file, where[p] / f"d_{p}.h5", "density file")
        eq(cfg.bias_init_file, None if p == "Lensing" else where[p] / f"b_{p}.h5", "bias file")
        c, d = np.transpose(case["probes"][p]["ells"] or [[10.5, 1.0], [11.5, 1.0], [12.5, 1.0], [13.5, 1.0]])
        close(cfg.l_bin_centers, c, "multipoles of the probe", 1e-12)
        close(cfg.l_bin_widths, d, "widths of the probe's multipoles", 1e-12)
        eq(cfg.specific_settings, data["probes"][ALIAS[p]]["specific_settings"], "settings of the probe")
        eq(set(cfg.nuisance_parameters), set(want_nuis[p]), "nuisance parameters of the probe")
        eq(set(cfg.present_nuisance_parameters), {n for n, v in want_nuis[p].items() if v[1]}, "free nuisance parameters of the probe")
        own = ProbeConfig(p, input_data_dir=data_dir, json_config=JSONForecastConfig(file=f))
        own.loadFromJSONConfig(JSONForecastConfig(data=copy.deepcopy(data)), load_nuis_params=True)
        check(own == cfg, "a probe's configuration loaded on its own")
    target = present[0]
    if case["miss"] in ("bias", "density") and not (case["miss"] == "bias" and target == "Lensing"):
        for w in case["probes"][target]["where"]:
            (folder(data_dir, target, w) / sections[target][f"{case['miss']}_file"]).unlink()
        ctx.label("missing file")
        raises(FileNotFoundError, load, f"missing {case['miss']} file")
    elif case["miss"] == "key":
        del data["probes"][ALIAS[target]]["density_file"]
        f.write_text(json.dumps(data))
        raises(KeyError, load, "missing option")
    raises(FileNotFoundError, lambda: ForecastConfig(input_file=tmp / "absent.json", input_data_dir=data_dir), "missing configuration file")


@CHECK.prop(st.fixed_dictionaries({"a": forecast(), "opts": st.lists(st.tuples(WORD, st.one_of(st.booleans(), st.integers(0, 9), WORD)), max_size=4, unique_by=lambda t: t[0]),
                                   "extra": st.dictionaries(WORD.map(lambda s: "zz" + s), TREE, max_size=3), "noise": st.one_of(st.none(), WORD), "user": WORD}), quick=60, thorough=600,
            rule="two or more synthetic options")
def json_config(case, ctx):
    tmp = ctx.tmp()
    data = {**forecast_json({p: {} for p in PROBES}, f_sky=case["a"]["f_sky"]), **case["extra"]}
    data["synthetic_opts"] = dict(map(tuple, case["opts"]))
    f, g = tmp / "a.json", tmp / "b.json"
    f.write_text(json.dumps(data))
    text = f.read_text()
    cfg = JSONForecastConfig(file=f)
    eq(cfg.data, data, "contents")
    ctx.nontrivial(len(case["opts"]) > 1)
    eq([cfg.WL, cfg.GCph, cfg.GCsp, cfg.Void], [data["probes"][a] for a in ("WL", "GCph", "GCsp", "V")], "sections of the probes")
    eq((cfg.f_sky, cfg.survey, cfg.cosmology, cfg.probes, cfg.derivative_settings, cfg.metadata, cfg.synthetic_opts, cfg.shot_noise_file),
       tuple([data["survey"]["f_sky"]] + [data[k] for k in ("survey", "cosmology", "probes", "derivative_settings", "metadata", "synthetic_opts")] + [None]), "sections")
    eq([k in cfg for k in data] + ["absent" in cfg], [True] * len(data) + [False], "presence of a section")
    parts = [k if isinstance(v, bool) else f"{k}_{v}" for k, v in case["opts"] if not (isinstance(v, bool) and not v)]
    eq(cfg.getConfigID(), "__".join(parts) or None, "identifier of the configuration")
    cfg.shot_noise_file = case["noise"]
    want = copy.deepcopy(data)
    want["survey"]["shot_noise_file"] = case["noise"]
    old = os.environ.get("USER")
    os.environ["USER"] = case["user"]
    try:
        cfg.toJSON(g)
    finally:
        os.environ.pop("USER") if old is None else os.environ.__setitem__("USER", old)
    got = json.loads(g.read_text())
    meta = got.pop("metadata")
    eq(got, {k: v for k, v in want.items() if k != "metadata"}, "saved contents")
    eq((meta["author"], set(meta)), (case["user"], {"author", "creation_date", "version"}), "author of the saved file")
    eq(f.read_text(), text, "the original file is left alone")
    eq(JSONForecastConfig(file=g).data, cfg.data, "reloaded")


# ---------------------------------------------------------------- command lines
VALUES = {"Job": {n: WORD for n in ("run_id", "forecast_config", "powerspectrum_config", "angular_config", "derivative_config", "fisher_config", "results_config", "input_data_dir",
                                    "powerspectrum_dir", "angular_dir", "derivative_dir", "fisher_dir", "execution", "queue", "memory", "verbose", "test", "angular", "fisher")},
          "Cl": {n: WORD for n in ("rundir", "workdir", "logfile", "main_config", "forecast_config", "input_data_dir", "power_spectrum_dir", "dvar", "niz_file", "standalone")},
          "ClDerivative": {n: WORD for n in ("rundir", "workdir", "logfile", "main_config", "forecast_config", "input_data_dir", "angular_dir", "dvar")},
          "Fisher": {n: WORD for n in ("rundir", "workdir", "logfile", "main_config", "forecast_config", "fisher_names", "shot_noise_file", "outdir", "input_data_dir")},
          "MainProgram": {n: WORD for n in ("rundir", "workdir", "logfile", "main_config", "forecast_config", "input_data_dir")}}
CLASSES = {"Job": cmd_line.JobSubmitterCommandLineArgs, "Cl": cmd_line.ClCLIArgs, "ClDerivative": cmd_line.ClDerivativeCLIArgs, "Fisher": cmd_line.FisherCLIArgs,
           "MainProgram": cmd_line.MainProgramCommandLineArgs}


@st.composite
def arg_dict(draw):
    kind = draw(st.sampled_from(sorted(CLASSES)))
    names = draw(st.lists(st.sampled_from(sorted(VALUES[kind])), unique=True, max_size=10))
    step = draw(st.sampled_from([None, "3", "-2", 0, 5, "+1", "x", "1.5"])) if kind == "Cl" else None
    return {"kind": kind, "args": {n: draw(st.one_of(WORD, st.none()) if n.endswith(("config", "dir")) else st.one_of(WORD, st.none(), st.booleans(), st.integers(0, 9))) for n in names},
            "step": step, "ns": draw(st.booleans()), "new": draw(WORD)}


@CHECK.prop(arg_dict(), quick=300, thorough=4000, rule="three or more options, paths among them")
def arguments(case, ctx):
    given = dict(case["args"])
    if case["step"] is not None:
        given["step"] = case["step"]
    cls = CLASSES[case["kind"]]
    src = argparse.Namespace(**given) if case["ns"] else dict(given)
    make = lambda: cls(src)
    if case["step"] in ("x", "1.5"):
        raises(ValueError, make, "a step which is not an integer")
        return
    args = make()
    ctx.label(case["kind"])
    want = {n: None for n in cls()}
    for n, v in given.items():
        is_path = n.endswith(("_config", "_dir") if case["kind"] == "Job" else ("config", "dir"))
        want[n] = Path(v) if is_path and v is not None else int(v) if n == "step" else v
    ctx.nontrivial(len(given) > 2 and any(isinstance(v, Path) for v in want.values()))
    eq(dict(args), want, "options")
    for n, v in want.items():
        got = getattr(args, n)
        check(got == v and type(got) is type(v), f"option {n}: got {got!r}, expected {v!r}")
    eq(vars(src) if case["ns"] else src, given, "the arguments given are left alone")
    raises(TypeError, lambda: cls([("a", 1)]), "arguments which are neither a dictionary nor a namespace")
    raises(AttributeError, lambda: getattr(args, "zz" + case["new"]), "unknown option")
    args.readArgs({"zz" + case["new"]: 3})
    eq(getattr(args, "zz" + case["new"]), 3, "option read later")


LINE = st.text("abc/_. 1-", min_size=1, max_size=12).map(str.strip).filter(bool)


@CHECK.prop(st.fixed_dictionaries({"files": st.lists(st.lists(LINE, max_size=4), min_size=1, max_size=3), "paths": st.lists(LINE, max_size=4), "json": TREE, "pad": st.booleans(), "dat": st.booleans()}),
            quick=120, thorough=1500, rule="several lists of paths")
def path_lists(case, ctx):
    tmp = ctx.tmp()
    files = []
    for i, lines in enumerate(case["files"]):
        f = tmp / f"l{i}.txt"
        f.write_text(("\n \n" if case["pad"] else "\n").join(("  " + ln + " ") if case["pad"] else ln for ln in lines) + ("\n" * (1 + case["dat"]) if lines else ""))
        files.append(f if i % 2 else str(f))
    ctx.nontrivial(sum(bool(x) for x in case["files"]) > 1)
    eq(cmd_line.get_paths_from_files_list(files), [Path(ln) for lines in case["files"] for ln in lines], "paths listed in text files")
    mixed = [p for p in case["paths"] if not p.endswith(".txt")]
    if mixed:
        eq(cmd_line.get_paths_from_files_list(mixed), [Path(p) for p in mixed], "paths given directly")
    f = tmp / ("l.dat" if case["dat"] else "l.txt")
    f.write_text("\n".join(case["files"][0]))
    eq(cmd_line.read_json_txt_list_file(f), case["files"][0], "list in a text file")
    g = tmp / "l.json"
    g.write_text(json.dumps(case["json"]))
    eq(cmd_line.read_json_txt_list_file(str(g)), case["json"], "list in a JSON file")
    raises(Exception, lambda: cmd_line.read_json_txt_list_file(tmp / "l.csv"), "unknown extension")


OPTVAL = st.one_of(st.sampled_from(["True", "true", "False", "false", "TRUE", "yes", "", "None", "-3", "1.5", "007", "42", "12a", "a12"]), WORD, NUM, st.booleans(), st.none())


def converted(v):
    if isinstance(v, str):
        if v in ("True", "true"):
            return True
        if v in ("False", "false"):
            return False
        if v and all(c in "0123456789" for c in v):
            return int(v)
    return v


@CHECK.prop(st.dictionaries(WORD, OPTVAL, max_size=8), quick=150, thorough=2000, rule="values of different types")
def conversions(case, ctx):
    want = {k: converted(v) for k, v in case.items()}
    ctx.nontrivial(len({type(v) for v in want.values()}) > 2)
    got = gu.convert_keyval_params_type(dict(case))
    for k in want:
        check(got[k] == want[k] and type(got[k]) is type(want[k]), f"{k}: got {got[k]!r}, expected {want[k]!r}")
    eq(set(got), set(case), "options")
    f = ctx.tmp() / "a.ini"
    texts = {k.lower(): v for k, v in case.items() if isinstance(v, str)}
    f.write_text("[defaults]\n" + "".join(f"{k} = {v}\n" for k, v in texts.items()) + "[other]\nzz = 1\n")
    got = gu.get_defaults_from_inifile(f)
    want = {k: converted(v) for k, v in texts.items()}
    eq({k: (v, type(v)) for k, v in got.items()}, {k: (v, type(v)) for k, v in want.items()}, "defaults in an ini file")


# options of job_submitter: (long, short, kind, default)
JOB = [("powerspectrum_config", "pmm_cfg", "path", fsu.config_files_dir() / "power_spectrum_config.json"), ("angular_config", "cl_cfg", "path", fsu.config_files_dir() / "angular_config.json"),
       ("derivative_config", "der_cfg", "path", fsu.config_files_dir() / "derivative_config.json"), ("fisher_config", "fish_cfg", "path", fsu.config_files_dir() / "fisher_config.json"),
       ("results_config", "res_cfg", "path", fsu.config_files_dir() / "results_config.json"), ("powerspectrum_dir", "pmm_dir", "path", None), ("angular_dir", "cl_dir", "path", None),
       ("derivative_dir", "der_dir", "path", None), ("fisher_dir", "fish_elems_dir", "path", None), ("forecast_config", "fcfg", "path", None), ("run_id", "id", "word", None),
       ("input_data_dir", "i", "path", "DEFAULT"), ("n_cores_per_job", "ncj", "int", 1), ("memory", "mem", "int", 2048), ("queue", "q", "word", "long"), ("execution", "ex", "ex", None),
       ("powerspectrum", "pmm", "flag", False), ("angular", "cl", "flag", False), ("derivative", "der", "flag", False), ("fisher", "fish", "flag", False), ("verbose", "-verbose", "flag", False),
       ("test", "t", "flag", False), ("keep_cl_variations", "-keep_cl_variations", "flag", False), ("overwrite_results", "ow", "flag", False)]
VAL = {"path": WORD.map(lambda s: "p/" + s), "word": WORD.map(lambda s: "w" + s + "w"), "int": st.integers(1, 9999), "ex": st.sampled_from(["no", "interactive", "batch"]),
       "flag": st.sampled_from(["bare", "True", "False", "true", "false"])}


@st.composite
def command(draw):
    argv, ini = [], []
    for k in draw(st.lists(st.sampled_from(range(len(JOB))), unique=True, max_size=10)):
        argv.append([k, draw(VAL[JOB[k][2]]), draw(st.booleans())])
    for k in draw(st.one_of(st.just([]), st.lists(st.sampled_from(range(len(JOB))), unique=True, max_size=6))):
        ini.append([k, draw(VAL[JOB[k][2]])])
    return {"argv": argv, "ini": ini, "ex": draw(VAL["ex"]), "default": draw(st.booleans()), "bad": draw(st.sampled_from([None, None, None, "ex", "cores", "ini", "option", "int", "noex"]))}


class Recorded(Exception):
    pass


def run_script(name, argv):
    """run the script as a program; the options it hands to the forecast runner"""
    seen = []

    class Recorder:
        def __init__(self, cmd_line_args=None, rundir=None, **kw):
            seen.append(cmd_line.JobSubmitterCommandLineArgs(cmd_line_args))
            raise Recorded

    old, old_argv = task_runners.ForecastRunner, sys.argv
    task_runners.ForecastRunner = Recorder
    sys.argv = [name] + argv
    root = logging.getLogger()
    keep = list(root.handlers)
    try:
        runpy.run_path(f"/repo/bin/{name}", run_name="__main__")
    except Recorded:
        return seen[0]
    except SystemExit as e:
        raise ValueError(f"exit {e.code}")
    finally:
        task_runners.ForecastRunner, sys.argv = old, old_argv
        for h in [h for h in root.handlers if h not in keep]:
            root.removeHandler(h)
            h.close()
    return None


@CHECK.prop(command(), quick=120, thorough=1500, rule="several options given, some in an ini file")
def job_submitter(case, ctx):
    tmp = ctx.tmp()
    os.chdir(tmp)
    default = tmp / "default_data"
    (default if case["default"] else tmp / "other").mkdir()
    os.environ["SEYFERT_INPUT_DATA"] = str(default)
    want = {n: d for n, _, _, d in JOB}
    argv, given = [], set()
    for k, v, long in case["argv"] + [[15, case["ex"], True]]:
        n, short, kind, _ = JOB[k]
        argv.append(f"--{n}" if long else f"-{short}")
        if not (kind == "flag" and v == "bare"):
            argv.append(str(v))
        want[n] = v
        given.add(n)
    if case["bad"] == "noex" and not any(k == 15 for k, _, _ in case["argv"]):
        del argv[-2:]
    if case["ini"] or case["bad"] == "ini":
        rows = {JOB[k][0]: "True" if v == "bare" else v for k, v in case["ini"]}
        want.update(rows)
        given |= set(rows)
        f = tmp / "o.ini"
        f.write_text("[config]\n" + "".join(f"{n} = {v}\n" for n, v in rows.items()) + ("zzunknown = 3\n" if case["bad"] == "ini" else ""))
        argv += ["-ini", str(f)]
        ctx.label("ini")
    ctx.nontrivial(len(given) > 2)
    bad = case["bad"]
    if bad == "ex":
        raises((ValueError, NotADirectoryError), lambda: run_script("job_submitter", argv + ["-ex", "maybe"] if "execution" not in {JOB[k][0] for k, _ in case["ini"]} else ["-ex", "maybe"]), "unknown execution mode")
    elif bad == "cores" and "n_cores_per_job" not in {JOB[k][0] for k, _ in case["ini"]}:
        raises((ValueError, NotADirectoryError), lambda: run_script("job_submitter", argv + ["-ncj", "0"]), "no cores")
    elif bad == "ini":
        raises(KeyError, lambda: run_script("job_submitter", argv), "unknown option in the ini file")
        return
    elif bad == "option":
        raises((ValueError, NotADirectoryError), lambda: run_script("job_submitter", argv + ["--zzunknown", "3"]), "unknown option")
    elif bad == "int":
        raises((ValueError, NotADirectoryError), lambda: run_script("job_submitter", argv + ["--memory", "a lot"]), "memory which is not a number")
    elif bad == "noex" and "-ex" not in argv and "--execution" not in argv:
        raises((ValueError, NotADirectoryError), lambda: run_script("job_submitter", argv), "no execution mode")
        return
    if "input_data_dir" not in given and not case["default"]:
        ctx.label("no data")
        raises(NotADirectoryError, lambda: run_script("job_submitter", argv), "no input data")
        return
    got = run_script("job_submitter", argv)
    for n, _, kind, _ in JOB:
        w = want[n]
        if w == "DEFAULT":
            w = default
        elif kind == "path" and w is not None:
            w = Path(w)
        elif kind == "flag":
            w = w if isinstance(w, bool) else w in ("bare", "True", "true")
        check(got[n] == w and type(got[n]) is type(w), f"option {n} of {argv}: got {got[n]!r}, expected {w!r}")


RUN = [e for e in JOB if e[2] != "flag" and e[0] not in ("run_id", "input_data_dir", "forecast_config", "execution")]


@CHECK.prop(st.fixed_dictionaries({"argv": st.lists(st.sampled_from(range(len(RUN))).flatmap(lambda k: st.tuples(st.just(k), VAL[RUN[k][2]], st.booleans())), unique_by=lambda t: t[0], max_size=6),
                                   "ex": VAL["ex"], "data": st.booleans(), "names": st.lists(st.sampled_from(["b_12_sp_bins.json", "a_4_sp_bins.json", "x_40_sp_bins.json", "other.json", "abc.json"]),
                                                                                             min_size=1, unique=True), "bad": st.booleans()}),
            quick=60, thorough=500, rule="two or more configurations, several options")
def run_seyfert(case, ctx):
    from seyfert.main import seyfert_core
    tmp = ctx.tmp()
    os.chdir(tmp)
    os.environ["SEYFERT_INPUT_DATA"] = str(tmp)
    want = {n: d for n, _, _, d in RUN}
    argv = []
    for k, v, long in case["argv"]:
        n, short, kind, _ = RUN[k]
        argv += [f"--{n}" if long else f"-{short}", str(v)]
        want[n] = Path(v) if kind == "path" else v
    data = tmp / "given" if case["data"] else tmp
    argv += ["-ex", "never" if case["bad"] else case["ex"], "-fcfg"] + [f"dir/{n}" for n in case["names"]] + (["-i", str(data)] if case["data"] else [])
    calls = []
    old = seyfert_core.execute_interactively, seyfert_core.submit_batch_jobs, sys.argv
    seyfert_core.execute_interactively = lambda a, f, log: calls.append(("interactive", dict(a), list(f)))
    seyfert_core.submit_batch_jobs = lambda a, f: calls.append(("batch", dict(a), list(f)))
    sys.argv = ["run_seyfert"] + argv
    root = logging.getLogger()
    keep = list(root.handlers)
    try:
        go = lambda: runpy.run_path("/repo/bin/run_seyfert", run_name="__main__")
        if case["bad"]:
            raises(ValueError, go, "unknown execution mode")
        else:
            go()
    finally:
        seyfert_core.execute_interactively, seyfert_core.submit_batch_jobs, sys.argv = old
        for h in [h for h in root.handlers if h not in keep]:
            root.removeHandler(h)
            h.close()
    ctx.nontrivial(len(case["names"]) > 1 and len(case["argv"]) > 1)
    if case["bad"] or case["ex"] == "no":
        eq(calls, [], "nothing is run")
        return
    (call,) = calls
    eq(call[0], case["ex"], "execution mode")
    for n, w in want.items():
        check(call[1][n] == w and type(call[1][n]) is type(w), f"option {n}: got {call[1][n]!r}, expected {w!r}")
    eq(call[1]["input_data_dir"], data, "input data")
    nums = {n: int(n.split("_")[1]) for n in case["names"] if "_sp_bins" in n}
    order = sorted(case["names"], key=nums.get) if len(nums) == len(case["names"]) else None
    got = [f.name for f in call[2]]
    if order is not None:
        eq(got, order, "configurations by number of bins")
    eq(sorted(got), sorted(case["names"]), "configurations to run")

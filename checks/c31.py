"""C31: the configuration window writes the configuration entered in it, and a forecast accepts it."""
import re
from datetime import datetime
from types import SimpleNamespace

from PyQt5 import QtWidgets
import c30
from covlib import *
from seyfert.config.forecast_config import ForecastConfig
from seyfert.cosmology.parameter import PhysicalParameter as PP
from seyfert.gui import interface_window
from seyfert.utils import general_utils as gu

CHECK = Check("C31", ["The window is driven without a display (Qt's 'offscreen' platform), through its widgets; entered numbers are valid numbers within the ranges of their widgets.",
                      "Multipole ranges have an integer length; at least one probe is present."])
APP = []
ROWS = ["h", "w0", "wa", "OmDE", "Omm", "Omb", "ns", "sigma8", "mnu"]
PANELS = {"Lensing": "Lensing", "PhotometricGalaxy": "GCph", "SpectroscopicGalaxy": "GCsp", "Void": "Void"}
IA = ["aIA", "cIA", "etaIA", "betaIA"]
WORD = st.text("abcXYZ_019", min_size=1, max_size=8).filter(lambda s: s[0].isalpha())
REAL = st.one_of(nice(-2, 2, 40), finite(-5, 5), st.integers(-3, 3).map(float))


def opened(no_datetime=True):
    if not APP:
        APP.append(QtWidgets.QApplication(["x", "-platform", "offscreen"]))
    return interface_window.ConfigGUIWindow(SimpleNamespace(no_datetime=no_datetime))


def panel(w, probe):
    """fields of a probe's panel by their name"""
    (page,) = [p for p in w.ui.centralwidget.findChildren(QtWidgets.QWidget, PANELS[probe]) if p.whatsThis() == "probe"]
    return {x.whatsThis(): x for x in page.findChildren(QtWidgets.QWidget) if x.whatsThis()}


def fill(w, f):
    """enter everything of f; None leaves a field as it is"""
    if f["f_sky"] is not None:
        w.ui.f_sky.setText(f["f_sky"])
    w.ui.is_universe_flat.setChecked(f["flat"])
    names = [w.ui.cosmo_pars.verticalHeaderItem(i).text() for i in range(w.ui.cosmo_pars.rowCount())]
    eq(names, ROWS, "rows of the parameters' table")
    for n, row in f["pars"].items():
        for j, t in enumerate(row):
            w.ui.cosmo_pars.item(names.index(n), j).setText(t)
    for i, t in enumerate(f["disps"]):
        w.ui.stem_disps.item(i, 0).setText(t)
    for p, o in f["probes"].items():
        x = panel(w, p)
        for n, v in o.items():
            q = x[n]
            if isinstance(q, QtWidgets.QCheckBox):
                q.setChecked(v)
            elif isinstance(q, QtWidgets.QLineEdit):
                q.setText(v)
            elif isinstance(q, QtWidgets.QComboBox):
                q.setCurrentText(v)
            else:
                assert q.minimum() <= v <= q.maximum(), (n, v)
                q.setValue(v)


def save(w, name, where):
    """as the button of the window and that of its dialog do; returns the files written"""
    here, left = os.getcwd(), []
    ex, keep = QtWidgets.QDialog.exec_, sys.exit
    try:
        os.chdir(where)
        interface_window.QDialog.exec_ = lambda self: 0
        sys.exit = left.append
        w.ui.json_save_button.pressed.emit()
        w.outfile_line_edit.setText(name)
        w.close_btn.pressed.emit()
    finally:
        interface_window.QDialog.exec_, sys.exit = ex, keep
        os.chdir(here)
    eq(left, [0], "exit of the window after saving")
    return sorted(Path(where).iterdir())


def text(v, style):
    return {0: repr, 1: lambda x: f"{x:.17e}", 2: lambda x: f" {x!r} "}[style](float(v))


@st.composite
def entered(draw):
    probes = {}
    present = draw(st.lists(st.sampled_from(sorted(PANELS)), min_size=1, unique=True))
    for p in PANELS:
        log = draw(st.booleans())
        lo = {"Lensing": (1, 4000), "Void": (1, 100)}.get(p, (1, 100))
        hi = {"Lensing": (1, 900), "Void": (760, 1400)}.get(p, (760, 4900))
        # a range which begins at 0 is not divided into logarithmic bins
        l_min = draw(st.one_of(st.integers(*lo), st.just(0 if not log else 1)))
        l_max = draw(st.integers(*hi)) + (l_min if p == "Lensing" else 0)
        half = draw(st.sampled_from([0, 0, 0.5, 0.25])) if l_min < lo[1] else 0
        o = {"presence_flag": p in present, "ell_external_checkbox": draw(st.booleans()), "ell_external_filename": draw(st.sampled_from(["", f"l_{p}.txt", f"l_{p}.txt"])),
             "ell_log_selection": log, "log_l_number": draw(st.integers(20, 200)), "l_min": l_min + half, "l_max": l_max + half, "density_file": f"d_{draw(WORD)}.h5"}
        if p == "Lensing":
            o["include_IA"] = draw(st.booleans())
            for n in IA:
                o[f"nuis_param_{n}"] = text(draw(REAL), draw(st.integers(0, 2)))
        else:
            o["bias_file"], o["marginalize_bias_flag"] = f"b_{draw(WORD)}.h5", draw(st.booleans())
            if p == "Void":
                o["void_kcut_invMpc"], o["void_kcut_width_invMpc"] = draw(st.integers(1, 90000)) / 1000, draw(st.integers(1, 90000)) / 1000
            else:
                o["bias_derivative_method"] = draw(st.sampled_from(["SteM", "Analytic"]))
            if p == "SpectroscopicGalaxy":
                o["compute_gcsp_cl_offdiag"] = draw(st.booleans())
        probes[p] = o
    number = st.tuples(REAL, st.integers(0, 2)).map(lambda t: text(*t))
    row = st.tuples(number, st.sampled_from(["true", "false", "True", "FALSE"]), st.sampled_from(["None", "eV", "km"]), number, st.sampled_from(["SteM", "Analytic"]))
    d = draw(st.lists(st.integers(1, 200), min_size=7, max_size=7, unique=True))
    return {"f_sky": draw(st.one_of(st.none(), nice(0.05, 1, 50).map(repr), finite(1e-3, 1).map(repr))), "flat": draw(st.booleans()), "pars": draw(st.dictionaries(st.sampled_from(ROWS), row)),
            "disps": [f"{x / 1000:.5f}" for x in d][:draw(st.sampled_from([0, 7, 7]))], "probes": probes, "bias": draw(st.integers(1, 3)),
            "name": draw(st.one_of(WORD, WORD.map(lambda s: s + ".json"))), "stamp": draw(st.booleans()), "dir": draw(st.booleans())}


SHOWN = {"h": 0.67, "w0": -1.0, "wa": 0.0, "OmDE": 0.68, "Omm": 0.32, "Omb": 0.05, "ns": 0.96, "sigma8": 0.816, "mnu": 0.06}


@CHECK.prop(entered(), quick=60, thorough=2500, rule="several parameters changed in the table, and two or more probes present")
def window(case, ctx):
    tmp = ctx.tmp()
    data, out = tmp / "data", tmp / "out"
    data.mkdir()
    out.mkdir()
    w = opened(no_datetime=not case["stamp"])
    names = [w.ui.cosmo_pars.verticalHeaderItem(i).text() for i in range(9)]
    shown = {n: [w.ui.cosmo_pars.item(names.index(n), j).text() for j in range(5)] for n in ROWS}
    steps = [w.ui.stem_disps.item(i, 0).text() for i in range(7)]
    sky = w.ui.f_sky.text()
    fill(w, case)
    typed = ("/some/where/" if case["dir"] else "") + case["name"]
    t0 = datetime.now().replace(microsecond=0)
    (file,) = save(w, typed, out)
    w.close()
    stem = case["name"][:-5] if case["name"].endswith(".json") and not case["stamp"] else case["name"]
    run_name, version, when = gu.split_run_id(file.stem)
    eq(file.suffix, ".json", "kind of file")
    eq(run_name, stem, "name of the configuration, as a run takes it from its file")
    check((when is not None) == case["stamp"], "the date is in the file's name unless it was not wanted")
    if case["stamp"]:
        check(t0 <= when <= datetime.now(), "date of the configuration")
    for p, o in case["probes"].items():
        (data / o["density_file"]).touch()
        np.savetxt(data / f"l_{p}.txt", [[10.0, 1.0], [20.5, 3.0]])
        if p != "Lensing":  # every probe's own bias
            (data / ALIAS[p]).mkdir()
            bias_file(data / ALIAS[p] / o["bias_file"], p, "piecewise", list(np.linspace(0.5, 2, case["bias"] + 1)), {f"{PREFIX[p]}{i}": 1 + 0.1 * i for i in range(case["bias"])})
    fc = ForecastConfig(input_file=file, input_data_dir=data, load_phys_params=True)
    present = [p for p in PANELS if case["probes"][p]["presence_flag"]]
    ctx.nontrivial(len(case["pars"]) > 1 and len(present) > 1)
    eq(set(fc.present_probes), set(present), "present probes")
    eq((fc.survey_f_sky, fc.is_universe_flat, fc.shot_noise_file, fc.shot_noise_sp_reduced), (float(case["f_sky"] or sky), case["flat"], None, False), "survey")
    pp = fc.phys_pars
    eq(sorted(pp.stem_dict.items()), sorted((s * (i + 1), s * x) for i, x in enumerate(sorted(float(x) for x in (case["disps"] or steps))) for s in (1, -1)), "steps of the derivatives")
    want = {}
    for n in ROWS:
        fid, free, units, factor, method = case["pars"].get(n, shown[n])
        if n not in case["pars"]:
            eq(float(fid), SHOWN[n], f"value shown at first for {n}")
        want[n] = (float(fid), float(fid), free.lower() == "true", PP.COSMO_PAR_STRING, units, float(factor), method, None)
    for p in present:
        o = case["probes"][p]
        if p == "Lensing":
            for n in IA:
                v = float(o[f"nuis_param_{n}"])
                want[n] = (v, v, o["include_IA"] and n != "cIA", PP.NUISANCE_PAR_STRING, "None", 1.0, "SteM", p)
        else:
            for i in range(case["bias"]):
                want[f"{PREFIX[p]}{i}"] = (1 + 0.1 * i, 1 + 0.1 * i, o["marginalize_bias_flag"], PP.NUISANCE_PAR_STRING, "None", 1.0, o.get("bias_derivative_method", "SteM"), p)
    eq({n: (q.fiducial, q.current_value, q.is_free_parameter, q.kind, q.units, q.stem_factor, q.derivative_method, q.probe) for n, q in pp.items()}, want, "parameters")
    for p in present:
        o, cfg = case["probes"][p], fc[p]
        eq(set(pp.getNuisanceParametersForProbe(p)), {n for n, v in want.items() if v[-1] == p}, f"nuisance parameters of {p}")
        if o["ell_external_checkbox"] and o["ell_external_filename"]:
            centers, widths = np.array([10.0, 20.5]), np.array([1.0, 3.0])
        elif o["ell_log_selection"]:
            e = np.array([o["l_min"] * (o["l_max"] / o["l_min"]) ** (k / o["log_l_number"]) for k in range(o["log_l_number"] + 1)])
            centers, widths = (e[1:] + e[:-1]) / 2, np.diff(e)
        else:
            e = o["l_min"] + np.arange(int(o["l_max"] - o["l_min"]) + 1)
            centers, widths = e[:-1] + 0.5, np.ones(len(e) - 1)
        eq(len(cfg.l_bin_centers), len(centers), f"number of multipoles of {p}")
        close(cfg.l_bin_centers, centers, f"multipoles of {p}", rtol=1e-10)
        close(cfg.l_bin_widths, widths, f"widths of the multipoles of {p}", rtol=1e-7)
        eq(cfg.density_init_file, data / o["density_file"], f"density of {p}")
        if p != "Lensing":
            eq((cfg.bias_init_file, bool(cfg.marginalize_bias)), (data / ALIAS[p] / o["bias_file"], o["marginalize_bias_flag"]), f"bias of {p}")
        special = {"Lensing": ["include_IA"], "Void": ["void_kcut_invMpc", "void_kcut_width_invMpc"], "SpectroscopicGalaxy": ["compute_gcsp_cl_offdiag"]}.get(p, [])
        eq({k: cfg.specific_settings.get(k) for k in special}, {k: o[k] for k in special}, f"settings of {p}")


@st.composite
def runnable(draw):
    c = draw(c30.survey())
    one = draw(st.sampled_from(["Omm", "h", "ns", "sigma8"]))
    probes = {p: c["probes"][p] for p in PANELS if p in c["probes"]}  # the window's order
    return {"survey": c30.small({**c, "probes": probes, "free": [one], "noise": False, "reduced": False, "fsky": 0.35, "ia": draw(st.sampled_from([True, False])), "scenario": "optimistic",
                                 "eps": [10]}), "steps": sorted(draw(st.lists(st.integers(5, 60), min_size=7, max_size=7, unique=True))),
            "jobs": draw(st.booleans())}


@CHECK.prop(runnable(), quick=3, thorough=30, rule="a nuisance parameter is free")
def forecast(case, ctx):
    """a forecast from a configuration of the window, and one from a configuration written by hand"""
    c = {**case["survey"], "eps": case["steps"]}
    root = ctx.tmp()
    data = c30.inputs(c, root)
    js = json.loads((data / "forecast.json").read_text())
    w = opened()
    f = {"f_sky": repr(c["fsky"]), "flat": c["flat"], "disps": [repr(x) for x in c30.disps(c)], "probes": {},
         "pars": {p["name"]: (repr(p["fiducial"]), str(p["is_free_parameter"]), p["units"], repr(p["stem_factor"]), p["derivative_method"]) for p in js["cosmology"]["parameters"] if p["name"] in ROWS}}
    for p in PANELS:
        s = js["probes"].get(ALIAS[p])
        if s is None:
            f["probes"][p] = {"presence_flag": False}
            continue
        o = {"presence_flag": True, "ell_external_checkbox": True, "ell_external_filename": s["ell_external_filename"], "density_file": s["density_file"], **s["specific_settings"]}
        for q in s["extra_nuisance_parameters"]:
            o[f"nuis_param_{q['name']}"] = repr(q["fiducial"])
        if p == "Lensing":
            o["include_IA"] = s["specific_settings"]["include_IA"] = bool(c["ia"])
            for q in s["extra_nuisance_parameters"]:
                q["is_free_parameter"] = bool(c["ia"]) and q["name"] != "cIA"
        else:
            o.update({"bias_file": s["bias_file"], "marginalize_bias_flag": s["marginalize_bias_flag"], **({} if p == "Void" else {"bias_derivative_method": "SteM"})})
        f["probes"][p] = o
    fill(w, f)
    (root / "gui").mkdir()
    (file,) = save(w, "mine", root / "gui")
    w.close()
    (data / "forecast.json").write_text(json.dumps(js))
    want = c30.snapshot(c30.run(c, root))
    ctx.nontrivial(any(k[0] == "derivative" and k[1] not in c30.FID for k in want))
    if case["jobs"]:
        got = c30.snapshot(c30.submit(c, root, root / "jobs", ["Angular", "Derivative", "Fisher"], forecast_config=file), c30.job_derivatives)
    else:
        got = c30.snapshot(c30.run(c, root, forecast_config=file, workdir=root / "window"))
    # the window does not ask for the scenario, without which the Fisher matrix of the other code is not known
    known = lambda k: "(Pk)" not in str(k[-1])
    for k in [k for k in want if isinstance(want[k], c30.pd.DataFrame)]:
        rows = [r for r in want[k].index if "(Pk)" not in r]
        check(k in got, f"{k} is missing")
        want[k] = want[k].loc[rows]
    want = {k: v for k, v in want.items() if known(k)}
    check(not any("(Pk)" in str(k[-1]) for k in got), "results of an unknown scenario")
    c30.same_results(got, want, "a forecast configured in the window")

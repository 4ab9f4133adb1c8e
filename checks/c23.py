"""C23: multipole bins, common multipoles, survey ranges, edits of a forecast configuration."""
import copy
from coslib import *
from seyfert.config.forecast_config import ForecastConfig, ForecastConfigEditor
from seyfert.config.probe_config import ProbeConfig
from seyfert.cosmology.c_ells import AngularCoefficient
from seyfert.cosmology.parameter import PhysicalParameter as PP
from seyfert.file_io.json_io import JSONForecastConfig
from seyfert.utils import array_utils as au
from seyfert.utils import filesystem_utils as fsu

CHECK = Check("C23", ["Linear ranges have an integer length.", "The multipoles of an external file are distinct."])
SPELLINGS = {"linear": ["lin", "linear", "Linear"], "log": ["log", "logarithmic", "Logarithmic"]}
LMIN = st.one_of(st.integers(1, 60), nice(1.5, 60.5, 59))


def log_edges(lo, hi, n):
    return np.array([lo * (hi / lo) ** (k / n) for k in range(n + 1)])


def bins_ref(kind, lo, hi, n):
    e = lo + np.arange(int(round(hi - lo)) + 1.0) if kind == "linear" else log_edges(lo, hi, n)
    return (e[1:] + e[:-1]) / 2, e[1:] - e[:-1], e


@CHECK.prop(st.fixed_dictionaries({"kind": st.sampled_from(["linear", "log"]), "s": st.integers(0, 2), "lo": LMIN, "len": st.integers(1, 400), "n": st.integers(1, 120),
                                   "float_n": st.booleans()}), quick=400, thorough=6000, rule="more than one bin")
def bins(case, ctx):
    lo, hi, kind = case["lo"], case["lo"] + case["len"], case["kind"]
    spacing = SPELLINGS[kind][case["s"]]
    n = float(case["n"]) if case["float_n"] else case["n"]
    c, d = au.compute_multipoles_arrays(lo, hi, spacing, n) if kind == "log" else au.compute_multipoles_arrays(lo, hi, spacing=spacing)
    wc, wd, e = bins_ref(kind, lo, hi, case["n"])
    ctx.label(kind)
    ctx.nontrivial(len(wc) > 1)
    close(c, wc, "bin centres", 1e-11)
    close(d, wd, "bin widths", 1e-8, 1e-11)
    close([np.sum(d), c[0] - d[0] / 2, c[-1] + d[-1] / 2], [hi - lo, lo, hi], "the bins cover the range", 1e-10)
    close((c + d / 2)[:-1], (c - d / 2)[1:], "bins neither overlap nor leave gaps", 1e-10)
    check(bool(np.all(np.diff(c) > 0) and np.all(d > 0)), "increasing bins")
    if kind == "log" and case["n"] > 1:
        close(au.compute_ell_bin_widths_from_log_centers(c), wd, "widths recovered from logarithmic centres", 1e-7)
    raises(ValueError, lambda: au.compute_multipoles_arrays(hi, lo, spacing, case["n"]), "reversed range")
    raises(ValueError, lambda: au.compute_multipoles_arrays(lo, lo, spacing, case["n"]), "empty range")
    raises(KeyError, lambda: au.compute_multipoles_arrays(lo, hi, spacing + "x", case["n"]), "unknown spacing")
    if kind == "log":
        raises(ValueError, lambda: au.compute_multipoles_arrays(lo, hi, spacing), "logarithmic bins without their number")
        raises(TypeError, lambda: au.compute_multipoles_arrays(lo, hi, spacing, str(case["n"])), "number of bins as text")


ARR = st.lists(st.integers(0, 12), min_size=1, max_size=10)


@CHECK.prop(st.fixed_dictionaries({"a": st.lists(ARR, min_size=1, max_size=4), "half": st.booleans(), "n": st.integers(1, 4), "l": st.integers(1, 4), "seed": st.integers(0, 10 ** 6)}),
            quick=300, thorough=4000, rule="three or more arrays")
def arrays(case, ctx):
    ctx.nontrivial(len(case["a"]) > 2)
    arrs = [np.array(a, dtype=float) * (0.5 if case["half"] else 1) for a in case["a"]]
    keep = [a.copy() for a in arrs]
    inter = sorted(set.intersection(*[set(a.tolist()) for a in arrs]))
    union = sorted(set.union(*[set(a.tolist()) for a in arrs]))
    got = au.compute_arrays_intersection1d(arrs)
    eq(np.sort(np.unique(got)).tolist(), inter, "intersection")
    if len(arrs) > 1:
        eq(got.tolist(), inter, "sorted intersection without repetitions")
    eq(au.compute_arrays_union1d(arrs).tolist(), union, "union")
    for a, k in zip(arrs, keep):
        same_bits(a, k, "the arrays are left alone")
    n, L = case["n"], case["l"]
    x = lcg(case["seed"], L * n * n).reshape(L, n, n)
    x0 = x.copy()
    s = au.symmetrize_clij_arr(x)
    same_bits(x, x0, "the array is left alone")
    for ell in range(L):
        for i in range(n):
            for j in range(n):
                check(abs(s[ell, i, j] - (x[ell, i, j] + x[ell, j, i]) / 2) < 1e-15, "symmetrised")
                check(s[ell, i, j] == s[ell, j, i], "symmetric")


@st.composite
def probe_bins(draw):
    kind = draw(st.sampled_from(["linear", "linear", "log", "external"]))
    if kind == "external":
        idx = draw(st.lists(st.integers(5, 30), min_size=1, max_size=12, unique=True))
        if draw(st.booleans()):
            idx = sorted(idx)
        return {"kind": kind, "c": [i + 0.5 for i in idx], "d": draw(vec(len(idx), nice(0.5, 3, 25)))}
    if kind == "linear":
        lo = draw(st.integers(4, 20))
        return {"kind": kind, "lo": lo, "hi": lo + draw(st.integers(1, 15)), "n": draw(st.sampled_from([None, 7]))}
    return {"kind": kind, "lo": draw(st.sampled_from([10, 10, 5])), "hi": draw(st.sampled_from([100, 100, 700])), "n": draw(st.sampled_from([6, 6, 9]))}


@st.composite
def survey(draw):
    probes = draw(st.permutations(PROBES))[:draw(st.integers(1, 4))]
    return {"probes": {p: draw(probe_bins()) for p in probes}, "order": list(probes), "absent": [p for p in probes[1:] if draw(st.integers(0, 4)) == 0],
            "both": draw(st.booleans()), "long": draw(st.booleans())}


def section(b, tmp, name):
    if b["kind"] == "external":
        np.savetxt(tmp / f"ells_{name}.txt", np.column_stack([b["c"], b["d"]]))
        # the external file wins over the range
        return {"ell_external_filename": f"ells_{name}.txt", "l_min": 2, "l_max": 9}
    return {"l_min": b["lo"], "l_max": b["hi"], "ell_log_selection": b["kind"] == "log", "log_l_number": b["n"]}


def write(tmp, data, name="fcfg.json"):
    f = tmp / name
    f.write_text(json.dumps(data))
    for sec in data["probes"].values():
        for key in ("density_file", "bias_file"):
            if key in sec:
                (tmp / sec[key]).touch()
    return f


@CHECK.prop(survey(), quick=250, thorough=4000, rule="two or more probes present, one of them with other multipoles than the others")
def common_multipoles(case, ctx):
    tmp = ctx.tmp()
    data = forecast_json({p: section(case["probes"][p], tmp, p) for p in case["order"]}, absent=case["absent"])
    fc = ForecastConfig(input_file=write(tmp, data), input_data_dir=tmp)
    present = [p for p in case["order"] if p not in case["absent"]]
    eq(fc.present_probes, present, "present probes")
    want = [(present[i], present[j]) for i in range(len(present)) for j in range(i, len(present))]
    eq(list(fc.probes_combinations), want, "combinations of probes")
    table = {}
    for p in present:
        b = case["probes"][p]
        cfg = fc[p]
        if b["kind"] == "external":
            same_bits(cfg.l_bin_centers, np.array(b["c"]), "multipoles of the file")
            close(cfg.l_bin_widths, b["d"], "widths of the file", 1e-12)
        else:
            wc, wd, _ = bins_ref(b["kind"], b["lo"], b["hi"], b["n"])
            close(cfg.l_bin_centers, wc, "centres", 1e-11)
            close(cfg.l_bin_widths, wd, "widths", 1e-8, 1e-11)
        table[p] = dict(zip(np.asarray(cfg.l_bin_centers).tolist(), np.asarray(cfg.l_bin_widths).tolist()))
    ctx.nontrivial(len(present) > 1 and len({tuple(sorted(t)) for t in table.values()}) > 1)
    any_empty = False
    for i, p in enumerate(present):
        for q in present:
            inter = sorted(set(table[p]) & set(table[q]))
            key = f"{p}_{q}"
            if not inter:
                any_empty = True
                ctx.label("no common multipoles")
                raises(Exception, lambda: fc.getMultipoleArraysForProbeComb(key), "probes without common multipoles")
                continue
            c, d = fc.getMultipoleArraysForProbeComb(key)
            same_bits(c, np.array(inter), f"multipoles of {key}")
            same_bits(d, np.array([table[p][x] for x in inter]), f"widths of the multipoles of {key}")
            cl = AngularCoefficient(probe1=p, probe2=q, forecast_config=fc)
            same_bits(cl.l_bin_centers, np.array(inter), "multipoles of the spectrum")
            same_bits(cl.l_bin_widths, d, "widths of the spectrum")
    if any_empty:
        raises(ValueError, fc.checkProbesMultipoles, "check of incompatible multipoles")
    else:
        eq(fc.checkProbesMultipoles(), None, "check of compatible multipoles")


CHANGES = ["none", "f_sky", "flat", "fiducial", "new parameter", "absent", "extra probe", "density", "bias", "l_min", "l_max", "log number", "spacing", "marginalize", "setting", "nuisance",
           "metadata"]


@CHECK.prop(st.fixed_dictionaries({"change": st.sampled_from(CHANGES), "probes": st.permutations(PROBES), "n": st.integers(2, 3), "which": st.integers(0, 2), "f_sky": nice(0.1, 0.9, 16),
                                   "om": nice(0.2, 0.4, 10), "lo": st.integers(5, 20), "len": st.integers(2, 10), "log": st.booleans()}), quick=220, thorough=2000,
            rule="one ingredient changed")
def equality(case, ctx):
    tmp = ctx.tmp()
    probes = case["probes"][:case["n"]]
    om = {"name": "Omm", "fiducial": case["om"], "kind": PP.COSMO_PAR_STRING, "is_free_parameter": True}
    extra = {"name": "xx", "fiducial": 1.5, "kind": PP.NUISANCE_PAR_STRING, "is_free_parameter": True, "probe": probes[0]}
    sec = {p: {"l_min": case["lo"], "l_max": case["lo"] + case["len"], "ell_log_selection": case["log"]} for p in probes}
    sec[probes[0]]["extra_nuisance_parameters"] = [extra]
    data = forecast_json(sec, params=[om], f_sky=case["f_sky"])
    other = copy.deepcopy(data)
    target = probes[case["which"] % len(probes)]
    galaxy = next(p for p in probes if p != "Lensing")
    tsec, gsec = other["probes"][ALIAS[target]], other["probes"][ALIAS[galaxy]]
    change = case["change"]
    differs = change not in ("none", "metadata")
    if change == "f_sky":
        other["survey"]["f_sky"] = np.nextafter(case["f_sky"], 1)
    elif change == "flat":
        other["cosmology"]["flat"] = False
    elif change == "fiducial":
        other["cosmology"]["parameters"][0]["fiducial"] += 1e-9
    elif change == "new parameter":
        other["cosmology"]["parameters"].append(dict(om, name="zz"))
    elif change == "absent":
        tsec["presence_flag"] = False
    elif change == "extra probe":
        new = next(p for p in PROBES if p not in probes)
        other["probes"][ALIAS[new]] = forecast_json({new: {}})["probes"][ALIAS[new]]
    elif change == "density":
        tsec["density_file"] = "density2.h5"
    elif change == "bias":
        gsec["bias_file"] = "bias2.h5"
    elif change == "l_min":
        tsec["l_min"] += 1
    elif change == "l_max":
        tsec["l_max"] += 1
    elif change == "log number":
        tsec["log_l_number"] += 1
        differs = case["log"]
    elif change == "spacing":
        tsec["ell_log_selection"] = not case["log"]
    elif change == "marginalize":
        gsec["marginalize_bias_flag"] = False
    elif change == "setting":
        tsec["specific_settings"]["new"] = 3
    elif change == "nuisance":
        other["probes"][ALIAS[probes[0]]]["extra_nuisance_parameters"][0]["fiducial"] = 1.25
    elif change == "metadata":
        other["metadata"]["author"] = "y"
    ctx.label(change)
    ctx.nontrivial(differs)
    files = [write(tmp, data, "a.json"), write(tmp, other, "b.json"), write(tmp, data, "c.json")]
    for p in probes + [q for q in PROBES if q not in probes]:
        if p != "Lensing":
            for name in ("bias.h5", "bias2.h5"):
                d = tmp / ALIAS[p]
                d.mkdir(exist_ok=True)
                bias_file(d / name, p, "piecewise", [0.5, 1.0, 1.5], {PREFIX[p] + "0": 1.1, PREFIX[p] + "1": 1.3})
    if any((tmp / f).exists() for f in ("bias.h5", "bias2.h5")):
        for f in ("bias.h5", "bias2.h5"):
            (tmp / f).unlink(missing_ok=True)
    a, b, c = [ForecastConfig(input_file=f, input_data_dir=tmp, load_phys_params=True) for f in files]
    eq(a == c, True, "two configurations loaded from equal files")
    eq(bool(a == b), not differs, f"equality of configurations ({change})")
    eq(bool(b == a), not differs, f"equality of configurations, reversed ({change})")


OPTS = st.fixed_dictionaries({"scenario": st.sampled_from(["optimistic", "pessimistic"]), "n_sp_bins": st.sampled_from([4, 12, 24, 40]), "gcph_minus_gcsp": st.booleans(),
                              "shot_noise_sp_reduced": st.booleans(), "gcph_only_bins_in_spectro_range": st.booleans()})
BASIC = json.loads((fsu.config_files_dir() / "basic_forecast_config.json").read_text())


def edited(o):
    """the configuration the options ask for"""
    w = copy.deepcopy(BASIC)
    w["synthetic_opts"].update(o)
    pess = o["scenario"] == "pessimistic"
    for p in ("GCph", "GCsp"):
        w["probes"][p].update(l_min=10, l_max=750 if pess else 3000, log_l_number=100, ell_log_selection=True)
    w["probes"]["WL"]["ell_external_filename"] = ("wl_pess_ells_10_750_log_nell_100_and_750_1500_lin.txt" if pess
                                                  else "wl_optm_ells_10_3000_log_nell_100_and_3000_5000_lin.txt")
    ph, sp = w["probes"]["GCph"], w["probes"]["GCsp"]
    suffix = "_only_bins_in_spectro_range" if o["gcph_only_bins_in_spectro_range"] else ""
    ph["density_file"] = "gcph_dndz_redbook_gcsp_subtracted.h5" if o["gcph_minus_gcsp"] else f"gcph_dndz_redbook{suffix}.h5"
    ph["bias_file"] = f"gcph_bias_piecewise{suffix}.h5"
    sp["density_file"], sp["bias_file"] = f"gcsp_dndz_{o['n_sp_bins']}_bins.h5", f"gcsp_bias_piecewise_{o['n_sp_bins']}_bins.h5"
    return w


def without_meta(d):
    return {k: v for k, v in d.items() if k != "metadata"}


@CHECK.prop(st.fixed_dictionaries({"o": OPTS, "o2": OPTS, "perm": st.permutations(range(5)), "ops": st.lists(st.sampled_from(["multipoles", "ph", "sp", "all", "write"]), max_size=5),
                                   "dt": st.booleans()}), quick=120, thorough=1000, rule="several edits of the same configuration")
def editor(case, ctx):
    tmp = ctx.tmp()
    names = list(case["o"])
    o = {names[i]: case["o"][names[i]] for i in case["perm"]}
    ed = ForecastConfigEditor(dict(o))
    refused = o["gcph_minus_gcsp"] and o["gcph_only_bins_in_spectro_range"]
    want = edited(o)
    cur = copy.deepcopy(BASIC)
    cur["synthetic_opts"] = want["synthetic_opts"]
    eq(without_meta(ed.config.data), without_meta(cur), "only the options are recorded on creation")
    ctx.nontrivial(len(case["ops"]) > 1)
    for k, op in enumerate(case["ops"] + ["all", "write"]):
        if op in ("multipoles", "all"):
            for p in ("WL", "GCph", "GCsp"):
                for key in ("l_min", "l_max", "log_l_number", "ell_log_selection", "ell_external_filename"):
                    cur["probes"][p][key] = want["probes"][p][key]
        if op in ("ph", "all"):
            if refused:
                raises(NotImplementedError, ed.updateGCphDensityAndBias if op == "ph" else ed.updateData, "contradictory options")
                ctx.label("contradictory")
                continue
            cur["probes"]["GCph"] = {**cur["probes"]["GCph"], **{k2: want["probes"]["GCph"][k2] for k2 in ("density_file", "bias_file")}}
        if op in ("sp", "all"):
            cur["probes"]["GCsp"] = {**cur["probes"]["GCsp"], **{k2: want["probes"]["GCsp"][k2] for k2 in ("density_file", "bias_file")}}
        if op == "write":
            f = tmp / str(k)
            f.mkdir()
            ed.writeJSON(f, add_datetime=case["dt"])
            (out,) = f.iterdir()
            eq(without_meta(json.loads(out.read_text())), without_meta(cur), "the written configuration")
            eq(out.name.startswith(f"{o['scenario']}_{o['n_sp_bins']}_sp_bins"), True, "file name")
        else:
            {"multipoles": ed.updateMultipoles, "ph": ed.updateGCphDensityAndBias, "sp": ed.updateGCspDensityAndBias, "all": ed.updateData}[op]()
        eq(without_meta(ed.config.data), without_meta(cur), f"configuration after {op}")
    eq(json.loads((fsu.config_files_dir() / "basic_forecast_config.json").read_text()), BASIC, "the shipped configuration is left alone")
    if not refused:
        eq(without_meta(ed.config.data), without_meta(want), "every requested option and nothing else")
    # distinct options give distinct files, two editors do not influence each other
    o2 = {n: case["o2"][n] for n in o}
    ed2 = ForecastConfigEditor(dict(o2))
    eq(ed.createFileName(add_datetime=False) == ed2.createFileName(add_datetime=False), o == o2, "file names of two sets of options")
    eq(without_meta(ed2.config.data)["synthetic_opts"], {**BASIC["synthetic_opts"], **o2}, "second editor")
    eq(ed2.config.data["probes"], BASIC["probes"], "second editor starts from the shipped configuration")


BAD = [("scenario", "semi"), ("scenario", "Optimistic"), ("scenario", 1), ("n_sp_bins", 5), ("n_sp_bins", "4"), ("n_sp_bins", 0), ("n_sp_bins", None), ("gcph_minus_gcsp", 1),
       ("gcph_minus_gcsp", "true"), ("shot_noise_sp_reduced", None), ("shot_noise_sp_reduced", 0), ("gcph_only_bins_in_spectro_range", "False"), ("gcph_only_bins_in_spectro_range", 1.0)]


@CHECK.prop(st.fixed_dictionaries({"o": OPTS, "bad": st.sampled_from(BAD), "drop": st.integers(0, 4), "extra": st.sampled_from(["nspbins", "Scenario", "", "f_sky"])}), quick=80, thorough=500)
def bad_options(case, ctx):
    ctx.nontrivial()
    o = case["o"]
    ForecastConfigEditor(dict(o))
    name, value = case["bad"]
    raises(Exception, lambda: ForecastConfigEditor({**o, name: value}), f"option {name}={value!r}")
    raises(Exception, lambda: ForecastConfigEditor({k: v for i, (k, v) in enumerate(o.items()) if i != case["drop"]}), "a missing option")
    raises(Exception, lambda: ForecastConfigEditor({**o, case["extra"]: True}), "an unknown option")

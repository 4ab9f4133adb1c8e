"""C26: Boltzmann solver inputs encode the cosmology they were given."""
import logging
import os
import runpy

os.environ["OMP_NUM_THREADS"] = "4"  # read by CAMB when it is loaded
from coslib import *
import parlib
import seyfert.cosmology.boltzmann_solver as bs
from seyfert.config.main_config import PowerSpectrumConfig
from seyfert.cosmology.boltzmann_solver import CAMBBoltzmannSolver, CLASSBoltzmannSolver
from seyfert.utils import filesystem_utils as fsu

CHECK = Check("C26", ["CLASS is not installed: its interface (set, compute, pk, pk_lin) is a stand-in; CAMB is the real one, with reduced accuracy settings.",
                      "sigma8 is computed from the linear spectrum up to k = 0.5 h/Mpc, neutrino densities with the factor 93.14 eV, as in the settings of the package."])
COSMO = st.fixed_dictionaries({"Omm": nice(0.15, 0.5, 70), "Omb": nice(0.02, 0.08, 60), "h": nice(0.5, 0.9, 80), "w0": nice(-1.4, -0.6, 80), "wa": nice(-0.6, 0.6, 60), "ns": nice(0.85, 1.05, 40), "sigma8": nice(0.5, 1.1, 60),
                               "mnu": st.one_of(st.just(0.0), nice(0.01, 0.6, 60)), "OmDE": nice(0.4, 0.9, 50), "gamma": nice(0.4, 0.7, 30)})
KEY = st.text("abcdefgz_0189()", min_size=1, max_size=14)
TEXT = st.one_of(st.sampled_from(["T", "F", "0.05", "2e-9", "", "Recfast", "-1 0 0 0 0", "out put.dat", "a=b", "0 # k = 2", "x = y = z", "=", "#5"]), st.text("abcXYZ_019.-+# =", max_size=12)).map(str.strip)
INI = st.dictionaries(KEY, TEXT, min_size=1, max_size=14)
NAMES = ["hubble", "w", "wa", "scalar_spectral_index", "omch2", "ombh2", "omnuh2", "omk"]


def basis(c):
    """densities of the solver from the parameters"""
    h2 = c["h"] ** 2
    return {"hubble": 100 * c["h"], "w": c["w0"], "wa": c["wa"], "scalar_spectral_index": c["ns"], "ombh2": c["Omb"] * h2, "omnuh2": c["mnu"] / 93.14, "omch2": (c["Omm"] - c["Omb"] - c["mnu"] / 93.14 / h2) * h2, "omk": 1 - c["Omm"] - c["OmDE"]}


def parameters(c, current):
    pars = cosmo_params({**c})
    for n, v in current.items():
        pars[n].current_value = v
    return pars


def settings(n=4, zmax=2.0, kmax=1.0, kmin=1e-3, nk=5, per=5, ini=None, zmin=0.0, code="CAMB"):
    cfg = PowerSpectrumConfig()
    cfg.update({"redshift_grid": {"z_min": zmin, "z_max": zmax, "n_redshifts": n}, "boltzmann_codes_settings": {"code": code, "camb": {"k_max": kmax, "k_per_logint": per, "ini_filename": ini if ini else "camb_planck_2018.ini"},
                                                                                         "class": {"k_max": kmax, "k_min": kmin, "n_k": nk}}})
    return cfg


def with_ini(cfg, path):
    """settings of a reference file outside of the package: an absolute name replaces the folder"""
    cfg["boltzmann_codes_settings"]["camb"]["ini_filename"] = str(path)
    check(cfg.camb_ini_path == path, "reference file")
    return cfg


def read_ini(path):
    """what the solver's own reader makes of the file: the first equal sign separates name and value"""
    out = {}
    for line in Path(path).read_text().splitlines():
        line = line.strip()
        if line and not line.startswith("#") and "=" in line:
            n, v = line.split("=", 1)
            out[n.strip()] = v.strip()
    return out


@CHECK.prop(st.fixed_dictionaries({"c": COSMO, "steps": st.lists(st.tuples(st.sampled_from(["Omm", "Omb", "h", "w0", "wa", "ns", "sigma8", "mnu", "OmDE"]), st.sampled_from([0.9, 0.99, 1.01, 1.1, 1.25])), max_size=4), "ini": INI,
                                   "junk": st.lists(st.sampled_from(["", "# a comment", "# x = 3", "   ", "no value here"]), max_size=4), "sp": st.sampled_from(["=", " = ", "  =", "= "]), "file": st.sampled_from([None, None, "own", "own", "own"]), "old": st.booleans()}),
            quick=150, thorough=3000, rule="parameters different from their fiducial values, or settings besides the cosmology")
def camb_input(case, ctx):
    tmp = ctx.tmp()
    c = dict(case["c"])
    cur = {}
    for n, f in case["steps"]:
        cur[n] = c[n] * f
    pars = parameters(c, cur)
    now = {**c, **cur}
    ctx.nontrivial(bool(cur) or case["file"] == "own")
    work = tmp / "job"
    work.mkdir()
    if case["file"]:
        ref = tmp / "ref.ini"
        lines = list(case["junk"]) + [f"{k}{case['sp']}{v}" for k, v in case["ini"].items()] + [f"{n} = 1" for n in NAMES if case["old"]]
        ref.write_text("\n".join(lines) + "\n")
        cfg = with_ini(settings(), ref)
    else:
        cfg = settings()
        ref = cfg.camb_ini_path
    before = ref.read_bytes()
    s = CAMBBoltzmannSolver(work, cfg, pars)
    b = s.computeCAMBCosmologicalBasis()
    want = basis(now)
    eq(set(b), set(want), "quantities handed to the solver")
    for n in want:
        close(b[n], want[n], n, rtol=1e-13, atol=1e-15)
    close(b["omch2"] + b["ombh2"] + b["omnuh2"], now["Omm"] * now["h"] ** 2, "matter density", rtol=1e-13)
    s.writeUpdatedCAMBIniFile()
    eq(ref.read_bytes(), before, "the reference file is left alone")
    eq([p.name for p in work.iterdir()], [ref.name], "files of the job")
    got, base = read_ini(work / ref.name), read_ini(ref)
    eq({k: v for k, v in got.items() if k not in want}, {k: v for k, v in base.items() if k not in want}, "other settings of the reference file")
    for n in want:
        check(float(got[n]) == float(b[n]), f"{n} in the file is {got[n]}, handed over was {b[n]}")
    eq(CAMBBoltzmannSolver.readCAMBIniFileToDict(work / ref.name), got, "settings read back")
    CAMBBoltzmannSolver.writeDictToIniFile(got, work / "again.ini")
    eq(read_ini(work / "again.ini"), got, "settings written again")
    # another cosmology in the same folder leaves no trace of the first one
    for n, v in parameters(c, {}).items():
        pars[n].current_value = v.fiducial
    s.writeUpdatedCAMBIniFile()
    got = read_ini(work / ref.name)
    for n, v in basis(c).items():
        close(float(got[n]), v, f"{n} of the next cosmology", rtol=1e-13, atol=1e-15)


@CHECK.prop(st.integers(1, 2000), quick=200, thorough=2000, rule="more redshifts than fit in one group")
def redshift_groups(n, ctx):
    g = CAMBBoltzmannSolver.computeCAMBRedshiftGroupsNumber(n)
    ctx.nontrivial(n > 150)
    parts = np.array_split(np.linspace(0, 3, n), g)
    check(max(map(len, parts)) <= 150 and min(map(len, parts)) >= 1, f"{n} redshifts in {g} groups: {[len(p) for p in parts]}")
    check(g == (n + 149) // 150, "no more groups than needed")


class FakeClass:
    def __init__(self):
        self.pars, self.ready = {}, False
        FakeClass.last = self

    def set(self, *a, **k):
        for d in a:
            self.pars.update(d)
        self.pars.update(k)

    def compute(self, *a):
        self.ready = True

    def value(self, k, z, lin):
        check(self.ready, "the solver ran before its results are read")
        check(0 <= z <= float(self.pars["z_max_pk"]) * (1 + 1e-12), f"redshift {z} beyond the {self.pars['z_max_pk']} asked for")
        check(k <= float(self.pars["P_k_max_1/Mpc"]) * (1 + 1e-9), f"wavenumber {k} beyond the maximum asked for")
        return (1000 if lin else 2000) * np.exp(-z) / (1 + k * 10) + 3 * k * z

    def pk_lin(self, k, z):
        return self.value(k, z, True)

    def pk(self, k, z):
        return self.value(k, z, False)

    def struct_cleanup(self):
        pass

    empty = struct_cleanup


@CHECK.prop(st.fixed_dictionaries({"c": COSMO, "steps": st.lists(st.tuples(st.sampled_from(["Omm", "Omb", "h", "w0", "wa", "ns", "sigma8", "mnu", "OmDE"]), st.sampled_from([0.9, 0.99, 1.01, 1.1])), max_size=3), "n": st.integers(1, 12), "zmin": nice(0, 0.5, 20),
                                   "dz": nice(0.1, 3, 30), "nk": st.integers(2, 12), "kmin": st.integers(-5, -2), "kmax": nice(0.5, 60, 60)}), quick=120, thorough=2500, rule="parameters different from their fiducial values and several redshifts")
def class_input(case, ctx):
    cur = {n: case["c"][n] * f for n, f in case["steps"]}
    now = {**case["c"], **cur}
    ctx.nontrivial(bool(cur) and case["n"] > 1)
    cfg = settings(n=case["n"], zmin=case["zmin"], zmax=case["zmin"] + case["dz"], kmax=case["kmax"], kmin=10.0 ** case["kmin"], nk=case["nk"], code="CLASS")
    had = hasattr(bs, "Class")
    old = getattr(bs, "Class", None)
    bs.Class = FakeClass
    try:
        cosmo = Cosmology(params=parameters(case["c"], cur), flat=False, z_grid=cfg.z_grid)
        if case["n"] == 1:
            cfg["redshift_grid"]["z_max"] = cfg["redshift_grid"]["z_min"]
        cosmo.evaluatePowerSpectrum(ctx.tmp(), cfg)
    finally:
        if had:
            bs.Class = old
        else:
            del bs.Class
    p = FakeClass.last.pars
    h2 = now["h"] ** 2
    for n, v in {"h": now["h"], "Omega_b": now["Omb"], "sigma8": now["sigma8"], "n_s": now["ns"], "w0_fld": now["w0"], "wa_fld": now["wa"], "Omega_fld": now["OmDE"], "m_ncdm": now["mnu"], "P_k_max_1/Mpc": case["kmax"]}.items():
        close(float(p[n]), v, n, rtol=1e-13, atol=1e-15)
    close(float(p["Omega_cdm"]) + float(p["Omega_b"]) + now["mnu"] / 93.14 / h2, now["Omm"], "matter density", rtol=1e-13)
    close(float(p["Omega_k"]), 1 - now["Omm"] - now["OmDE"], "curvature", atol=5.1e-7)
    ps = cosmo.power_spectrum
    k = 10.0 ** (case["kmin"] + (np.log10(case["kmax"]) - case["kmin"]) * np.arange(case["nk"]) / (case["nk"] - 1))
    close(ps.k_grid, k, "wavenumbers", rtol=1e-9)
    eq(list(ps.z_grid), list(cfg.z_grid), "redshifts")
    for name, f in (("lin_p_mm_z_k", 1000), ("nonlin_p_mm_z_k", 2000)):
        z, kk = cfg.z_grid[:, None], np.asarray(ps.k_grid)[None, :]
        close(getattr(ps, name), f * np.exp(-z) / (1 + kk * 10) + 3 * kk * z, name, rtol=1e-9)


FAST = """get_scalar_cls = F
get_transfer = T
do_nonlinear = 1
# a comment = x
dark_energy_model = ppf
temp_cmb = 2.7255
helium_fraction = 0.2454006
massless_neutrinos = 2.046
nu_mass_eigenstates = 1
massive_neutrinos = 1
share_delta_neff = T
nu_mass_fractions = 1
initial_power_num = 1
pivot_scalar = 0.05
scalar_amp = 2e-9
scalar_spectral_index = 0.9
reionization = F
transfer_high_precision = F
transfer_kmax = 1
transfer_k_per_logint = 5
transfer_num_redshifts = 1
transfer_redshift(1) = 0
transfer_power_var = 7
accuracy_boost = 0.5
l_accuracy_boost = 0.5
"""


def direct_camb(tmp, c, zs, kmax, per):
    """sigma8-normalised spectra straight from the solver"""
    import camb
    ini = {**read_ini(tmp / "fast.ini"), **{k: repr(float(v)) for k, v in basis(c).items()}}

    def results(amp, z, kmax, per, nonlinear):
        (tmp / "ref.ini").write_text("".join(f"{k} = {v}\n" for k, v in {**ini, "scalar_amp": repr(amp)}.items()))
        p = camb.read_ini(str(tmp / "ref.ini"))
        p.set_matter_power(redshifts=list(z), kmax=kmax, k_per_logint=per, nonlinear=nonlinear, accurate_massive_neutrino_transfers=nonlinear)
        return camb.get_results(p), p
    r, p = results(2e-9, [0.0], 0.5, None, False)
    amp = 2e-9 * (c["sigma8"] / float(r.get_sigma8_0())) ** 2
    r, p = results(amp, zs, kmax, per, True)
    out = []
    for f in (r.get_linear_matter_power_spectrum, r.get_nonlinear_matter_power_spectrum):
        k, z, P = f(hubble_units=False, k_hunit=False, have_power_spectra=True, params=p)
        close(z, zs, "redshifts of the reference", rtol=1e-12)
        out.append(np.array(P))
    return np.array(k), out, amp


@CHECK.prop(st.fixed_dictionaries({"c": COSMO, "step": st.tuples(st.sampled_from(["Omm", "Omb", "h", "w0", "wa", "ns", "sigma8", "mnu"]), st.sampled_from([0.95, 1.05])), "n": st.sampled_from([2, 3, 5, 5, 151, 301]), "zmin": st.sampled_from([0.0, 0.001, 0.1]), "dz": nice(0.5, 2.4, 30)}),
            quick=2, thorough=40, rule="parameters different from their fiducial values")
def camb_spectra(case, ctx):
    tmp = ctx.tmp()
    c = case["c"]
    if c["mnu"] == 0:
        c = {**c, "mnu": 0.06}
    c = {**c, "Omm": min(c["Omm"], 0.45), "OmDE": min(max(c["OmDE"], 0.95 - c["Omm"]), 1.05 - c["Omm"]), "w0": max(c["w0"], -1.2), "Omb": min(c["Omb"], 0.06), "wa": min(c["wa"], 0.2)}
    n, f = case["step"]
    cur = {n: c[n] * f}
    ctx.nontrivial()
    ctx.label(f"{case['n']} redshifts")
    (tmp / "fast.ini").write_text(FAST)
    cfg = with_ini(settings(n=case["n"], zmin=case["zmin"], zmax=case["zmin"] + case["dz"]), tmp / "fast.ini")
    work = tmp / "job"
    work.mkdir()
    cosmo = Cosmology(params=parameters(c, cur), flat=False, z_grid=cfg.z_grid)
    cosmo.evaluatePowerSpectrum(work, cfg)
    ps = cosmo.power_spectrum
    now = {**c, **cur}
    eq(np.shape(ps.lin_p_mm_z_k), (case["n"], len(ps.k_grid)), "shape of the spectrum")
    eq(list(ps.z_grid), list(cfg.z_grid), "redshifts")
    rows = sorted({0, 1, case["n"] // 2, case["n"] - 2, case["n"] - 1, 149 % case["n"], 150 % case["n"]})
    k, (lin, non), amp = direct_camb(tmp, now, [cfg.z_grid[r] for r in rows], 1.0, 5)
    close(float(read_ini(work / "fast.ini")["scalar_amp"]), amp, "primordial amplitude which gives sigma8", rtol=1e-6)
    close(ps.k_grid, k, "wavenumbers", rtol=1e-9)
    close(ps.lin_p_mm_z_k[rows], lin, "linear spectrum", rtol=3e-3)
    close(ps.nonlin_p_mm_z_k[rows], non, "nonlinear spectrum", rtol=5e-3)
    check(bool(np.all(np.diff(ps.lin_p_mm_z_k[:, len(k) // 3]) < 0)), "structure grows with time")
    close(np.asarray(ps.lin_p_mm_z_k[rows[-1]] / ps.lin_p_mm_z_k[rows[0]])[len(k) // 3], (lin[-1] / lin[0])[len(k) // 3], "growth", rtol=2e-3)
    eq(read_ini(tmp / "fast.ini"), read_ini(plain_file(tmp)), "reference settings")


def plain_file(tmp):
    f = tmp / "copy.ini"
    f.write_text(FAST)
    return f


# ---------------------------------------------------------------- one job of the pipeline
@CHECK.prop(st.fixed_dictionaries({"pars": parlib.collection(flat=None), "omm": st.integers(20, 40), "which": st.integers(0, 100), "step": st.integers(0, 100), "n": st.integers(2, 6), "code": st.sampled_from(["CAMB", "CLASS"]), "values": COSMO}),
            quick=40, thorough=800, rule="the cosmology of the job is not the fiducial one")
def jobs(case, ctx):
    """compute_pmm: the spectra handed over and stored are those of the job's own parameter and step"""
    tmp = ctx.tmp()
    c = {**case["pars"], "params": [p for p in case["pars"]["params"] if p["kind"] == parlib.N]}
    flat = c["flat"]
    vals = {k: v for k, v in case["values"].items() if v}
    if flat:
        vals["Omm"], vals["OmDE"] = case["omm"] / 100, round(1 - case["omm"] / 100, 2)
    for n in COSMO_NAMES:
        c["params"].append({"name": n, "kind": parlib.C, "probe": None, "fiducial": vals.get(n, 0.06), "current": None, "free": not (flat and n == "OmDE"), "stem_factor": 1.0, "units": "None", "method": "SteM"})
    c["disps"] = sorted(c["disps"])
    pp = parlib.build(c)
    nd = len(c["disps"])
    choices = [("central", 0)] + [(n, s) for n in COSMO_NAMES if not (flat and n == "OmDE") for s in range(-nd, nd + 1) if s]
    dvar, step = choices[case["which"] * 101 % len(choices) if case["step"] % 9 else 0]
    ctx.nontrivial(dvar != "central")
    ctx.label(case["code"])
    run = tmp / "run"
    work = run / "PowerSpectrum" / fsu.get_cosmology_jobdir_name(dvar, step)
    work.mkdir(parents=True)
    cfg = settings(n=case["n"], zmax=1.5, zmin=0.1, code=case["code"])
    (work / "pk.json").write_text(json.dumps({k: cfg[k] for k in ("redshift_grid", "boltzmann_codes_settings")}))
    (run / "input_files").mkdir()
    pp.writeJSON(run / "input_files/params.json")
    (run / "input_files_dict.json").write_text(json.dumps({"params": "input_files/params.json"}))
    want = {n: vals.get(n, 0.06) for n in COSMO_NAMES}
    if dvar != "central":
        disp = sorted(c["disps"])[abs(step) - 1] * (1 if step > 0 else -1)
        want[dvar] = want[dvar] * (1 + disp)
        if flat and dvar == "Omm":
            want["OmDE"] = 1 - want["Omm"]
    seen = []

    def fake(self):
        vals = {n: float(p.current_value) for n, p in self.cosmological_parameters.items() if n in COSMO_NAMES}
        seen.append((vals, Path(self.workdir)))
        self.k_grid = np.array([0.01, 0.1, 1.0])
        self.lin_p_mm_z_k = np.exp(-self.z_grid)[:, None] * np.array([3.0, 2, 1]) * vals["sigma8"] ** 2
        self.nonlin_p_mm_z_k = 2 * self.lin_p_mm_z_k
    olds = {}
    for cls in (CAMBBoltzmannSolver, CLASSBoltzmannSolver):
        olds[cls] = cls.evaluateLinearAndNonLinearPowerSpectra
        cls.evaluateLinearAndNonLinearPowerSpectra = fake
    root = logging.getLogger()
    keep = list(root.handlers)
    try:
        mod = runpy.run_path("/repo/bin/compute_pmm", run_name="module")
        mod["main"]({"workdir": str(work), "rundir": str(run), "main_config": "pk.json", "logfile": str(work / "log")})
    finally:
        for cls, f in olds.items():
            cls.evaluateLinearAndNonLinearPowerSpectra = f
        for hd in [hd for hd in root.handlers if hd not in keep]:
            root.removeHandler(hd)
            hd.close()
    eq(len(seen), 1, "spectra computed by one job")
    eq(seen[0][1], work, "folder of the job")
    for n, v in want.items():
        close(seen[0][0][n], v, f"{n} handed to the solver for ({dvar}, {step})", rtol=1e-12, atol=1e-15)
    got = Cosmology.fromHDF5(work / "p_mm.h5")
    for n, v in want.items():
        close(got.params[n].current_value, v, f"stored {n}", rtol=1e-12, atol=1e-15)
        close(got.params[n].fiducial, vals.get(n, 0.06), f"stored fiducial {n}", rtol=1e-12)
    check(bool(got.is_flat) == flat, "flatness")
    z = np.linspace(0.1, 1.5, case["n"])
    close(got.z_grid, z, "redshifts", rtol=1e-13)
    close(got.power_spectrum.z_grid, z, "redshifts of the spectrum", rtol=1e-13)
    close(got.power_spectrum.lin_p_mm_z_k, np.exp(-z)[:, None] * np.array([3.0, 2, 1]) * want["sigma8"] ** 2, "linear spectrum", rtol=1e-12)
    close(got.power_spectrum.nonlin_p_mm_z_k, 2 * np.exp(-z)[:, None] * np.array([3.0, 2, 1]) * want["sigma8"] ** 2, "nonlinear spectrum", rtol=1e-12)
    close(got.growth_factor_z, np.exp(-(z - z[0]) / 2), "growth factor", rtol=1e-10)
    ref = Cosmology(params=cosmo_params(want), flat=flat, z_grid=z)
    ref.growth_factor_z = np.ones(len(z))
    ref.evaluateOverRedshiftGrid()
    close(got.H_z, ref.H_z, "expansion rate of the job's cosmology", rtol=1e-10)
    close(got.r_z, ref.r_z, "distances of the job's cosmology", rtol=1e-10)


COSMO_NAMES = ["Omm", "OmDE", "Omb", "w0", "wa", "h", "ns", "sigma8", "mnu", "gamma"]

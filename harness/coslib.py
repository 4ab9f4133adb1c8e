"""Small synthetic universes: cosmology arrays, densities, biases, probe configurations."""
from types import SimpleNamespace
from pbt import *
from seyfert.cosmology.bias import Bias
from seyfert.cosmology.cosmology import Cosmology
from seyfert.cosmology.parameter import PhysicalParameter
from seyfert.cosmology.power_spectrum import PowerSpectrum
from seyfert.cosmology.redshift_density import RedshiftDensity

C_KM_S = 299792.458
PROBES = ["PhotometricGalaxy", "SpectroscopicGalaxy", "Lensing", "Void"]
PREFIX = {"PhotometricGalaxy": "bgph", "SpectroscopicGalaxy": "bgsp", "Void": "bvd"}
FID_PARS = {"Omm": 0.32, "OmDE": 0.68, "w0": -1.0, "wa": 0.0, "h": 0.67, "gamma": 0.55, "Omb": 0.05, "ns": 0.96,
            "sigma8": 0.8, "mnu": 0.06}


def cosmo_params(values):
    return {n: PhysicalParameter(name=n, fiducial=float(v), kind=PhysicalParameter.COSMO_PAR_STRING, is_free_parameter=True)
            for n, v in {**FID_PARS, **values}.items()}


@st.composite
def background(draw, nz=(4, 20), romberg=False, zmin=None):
    n = draw(st.sampled_from([5, 9, 17])) if romberg else draw(st.integers(*nz))
    return {"Omm": draw(nice(0.1, 0.6, 50)), "w0": draw(nice(-1.3, -0.7, 12)), "wa": draw(nice(-0.5, 0.5, 10)),
            "h": draw(nice(0.5, 0.9, 40)), "nz": n, "zmin": draw(nice(0.005, 0.2, 20)) if zmin is None else zmin,
            "dz": draw(nice(0.5, 3, 25)), "seed": draw(st.integers(0, 10 ** 6))}


def build_background(u, exact=True):
    """Cosmology with its grid quantities; exact: E and r are evaluated by the code, otherwise smooth made-up arrays."""
    vals = {"Omm": u["Omm"], "OmDE": 1 - u["Omm"], "w0": u["w0"], "wa": u["wa"], "h": u["h"]}
    z = np.linspace(u["zmin"], u["zmin"] + u["dz"], u["nz"])
    cosmo = Cosmology(params=cosmo_params(vals), flat=True, z_grid=z)
    D = np.exp(-0.6 * z) * (1 + 0.05 * np.sin(u["seed"] % 7 + z))
    cosmo.growth_factor_z = D
    if exact:
        cosmo.evaluateOverRedshiftGrid()
    else:
        cosmo.dimensionless_hubble_array = (1 + z) ** 1.5 * lcg(u["seed"], len(z), 0.8, 1.2)
        cosmo.dimensionless_comoving_distance_array = np.cumsum(lcg(u["seed"] + 1, len(z), 0.05, 0.4))
    return cosmo


@st.composite
def density(draw, nbins=(1, 4)):
    return {"n": draw(st.integers(*nbins)), "seed": draw(st.integers(0, 10 ** 6)), "npts": draw(st.integers(6, 20)),
            "sparse": draw(st.booleans()), "trim": [draw(st.sampled_from([0.0, 0.0, 0.1, 0.25])) for _ in "ab"]}


def build_density(d, z, probe):
    """density given bin by bin on a catalogue grid wider than z"""
    dens = RedshiftDensity(probe=probe)
    dens.has_niz_from_input = True
    zin = np.linspace(max(z[0] - 0.02, 0.0), z[-1] + 0.02, d["npts"])
    dens.input_z_domain = zin
    trim = d.get("trim", (0.0, 0.0))
    ends = [zin[0] + trim[0] * (zin[-1] - zin[0]), zin[-1] - trim[1] * (zin[-1] - zin[0])]
    dens.z_bin_edges = np.linspace(*ends, d["n"] + 1)  # the catalogue may reach beyond the bins
    dens.input_n_iz = lcg(d["seed"], d["n"] * len(zin), 0.05, 2).reshape(d["n"], len(zin))
    dens.dN_dOmega_bins = lcg(d["seed"] + 3, d["n"], 0.5, 30)
    dens.catalog_f_sky = 0.35
    dens.setUp()
    if d["sparse"]:  # already evaluated, with empty stretches
        dens.evaluate(z)
        dens.norm_density_iz = dens.norm_density_iz * (lcg(d["seed"] + 5, dens.norm_density_iz.size, 0, 1) > 0.3).reshape(
            dens.norm_density_iz.shape)
    return dens


def bias_file(path, probe, model, edges, values, additional=None, order=None):
    b = Bias(probe=probe, z_bin_edges=np.array(edges))
    b.model_name = model
    names = list(values)
    b.nuisance_parameters = {names[i]: float(values[names[i]]) for i in (order or range(len(names)))}
    b.additional_parameters = additional or {}
    b.saveToHDF5(path)
    return path


def nuisance(values, probe):
    """current values differ from the fiducials stored in the bias file"""
    return {n: PhysicalParameter(name=n, fiducial=float(f), current_value=float(c), kind=PhysicalParameter.NUISANCE_PAR_STRING,
                                 probe=probe, is_free_parameter=True) for n, (f, c) in values.items()}


def probe_config(**kw):
    base = dict(specific_settings={}, bias_init_file=None, density_init_file=None, l_bin_centers=None, l_bin_widths=None)
    base.update(kw)
    return SimpleNamespace(**base)


def angular_config(cl="simpson", lensing="simpson", kx=3, ky=3, s=0):
    from seyfert.config.main_config import AngularConfig
    cfg = AngularConfig()
    cfg["cl_integration_settings"] = {"cl": cl, "lensing_efficiency": lensing}
    cfg["limber_pmm_spline_settings"] = {"kx": kx, "ky": ky, "s": s}
    return cfg


def forecast_config(ells, settings=None, verbose=False):
    """ForecastConfig holding the given probes: {long name: (centres, widths)}"""
    import itertools
    from seyfert.config.forecast_config import ForecastConfig
    from seyfert.config.probe_config import ProbeConfig
    fc = ForecastConfig()
    fc.verbose = verbose
    for probe, (c, d) in ells.items():
        p = ProbeConfig(probe)
        p.l_bin_centers, p.l_bin_widths = np.array(c, dtype=float), np.array(d, dtype=float)
        p.specific_settings = dict((settings or {}).get(probe, {}))
        fc.probe_configs[probe] = p
    fc.probes_combinations = list(itertools.combinations_with_replacement(list(ells), 2))
    return fc


def weight(probe, w, z):
    from seyfert.cosmology.weight_functions import weight_function_for_probe
    out = weight_function_for_probe(probe)
    out.w_bin_z, out.z_grid = np.array(w, dtype=float), np.array(z)
    return out


@st.composite
def power(draw, kmax=3):
    """coefficients of log10 P as a polynomial of z and log10 k (reproduced exactly by an interpolating spline)"""
    kx, ky = draw(st.integers(1, kmax)), draw(st.integers(1, kmax))
    co = {}
    for a in range(kx + 1):
        for b in range(ky + 1):
            co[f"{a},{b}"] = draw(nice(-0.15, 0.15, 30)) / (1 + a + b)
    co["0,0"] = draw(nice(1, 3, 20))
    return {"kx": kx, "ky": ky, "co": co, "lk": [draw(nice(-3.5, -2, 15)), draw(nice(-0.5, 1, 15))], "nk": draw(st.integers(5, 15))}


def eval_power(p, z, k):
    """clamped to the table outside its k range"""
    x = np.clip(np.log10(k), *p["lk"])
    return 10 ** sum(c * z ** int(ab.split(",")[0]) * x ** int(ab.split(",")[1]) for ab, c in p["co"].items())


def set_power(cosmo, p):
    ps = PowerSpectrum()
    ps.z_grid = cosmo.z_grid
    ps.k_grid = 10 ** np.linspace(p["lk"][0], p["lk"][1], p["nk"])
    ps.nonlin_p_mm_z_k = eval_power(p, cosmo.z_grid[:, None], ps.k_grid[None, :])
    ps.lin_p_mm_z_k = 0.7 * ps.nonlin_p_mm_z_k
    cosmo.power_spectrum = ps


def newton_cotes_ref(y, x, order):
    """integrate the interpolating polynomials of consecutive groups of order+1 nodes (what remains: one last group)"""
    n = len(x)
    tot, i = 0.0, 0
    h = x[1] - x[0]
    while i < n - 1:
        m = min(order, n - 1 - i)
        t = np.arange(m + 1, dtype=float)
        A = np.vander(t, m + 1, increasing=True)
        c = np.linalg.solve(A, y[i:i + m + 1])
        tot += h * sum(c[k] * m ** (k + 1) / (k + 1) for k in range(m + 1))
        i += m
    return tot


def rule_ref(method, y, x):
    from scipy.integrate import simpson
    if method == "simpson":
        return float(simpson(y, x=x))
    if method.startswith("newton"):
        return newton_cotes_ref(y, x, int(method.split("_")[1]))
    if method == "quad":  # of the linear interpolation
        return float(np.sum((y[1:] + y[:-1]) / 2 * np.diff(x)))
    # Romberg: Richardson extrapolation of trapezoidal sums
    n = len(x) - 1
    K = int(round(math.log2(n)))
    h = x[1] - x[0]
    R = [[None] * (K + 1) for _ in range(K + 1)]
    for a in range(K + 1):
        s = n >> a
        yy = y[::s]
        R[a][0] = h * s * (np.sum(yy) - (yy[0] + yy[-1]) / 2)
    for b in range(1, K + 1):
        for a in range(b, K + 1):
            R[a][b] = R[a][b - 1] + (R[a][b - 1] - R[a - 1][b - 1]) / (4 ** b - 1)
    return R[K][K]


ALIAS = {"PhotometricGalaxy": "GCph", "SpectroscopicGalaxy": "GCsp", "Lensing": "WL", "Void": "V"}
LONG = {a: p for p, a in ALIAS.items()}


def forecast_json(probes, params=(), f_sky=0.35, flat=True, disps=(0.01, 0.02), shot_noise_file=None, absent=()):
    """contents of a forecast configuration file; probes: {long name: overrides of the probe's section}"""
    sections = {}
    for probe, kw in probes.items():
        sec = {"long_name": probe, "presence_flag": probe not in absent, "ell_external_filename": None, "l_min": 10, "l_max": 14,
               "ell_log_selection": False, "log_l_number": 5, "density_file": "density.h5", "extra_nuisance_parameters": [], "specific_settings": {}}
        if probe == "Lensing":
            sec["specific_settings"] = {"include_IA": True}
        else:
            sec.update({"bias_file": "bias.h5", "bias_derivative_method": "SteM", "marginalize_bias_flag": True})
        if probe == "SpectroscopicGalaxy":
            sec["specific_settings"] = {"compute_gcsp_cl_offdiag": False}
        if probe == "Void":
            sec["specific_settings"] = {"void_kcut_invMpc": 0.35, "void_kcut_width_invMpc": 0.1}
        sec.update(kw)
        sections[ALIAS[probe]] = sec
    return {"metadata": {"author": "x", "creation_date": "2021-06-23T12:38:58.034512", "version": "1.0.0"},
            "synthetic_opts": {"scenario": "optimistic", "n_sp_bins": 4, "shot_noise_sp_reduced": False, "gcph_minus_gcsp": False},
            "survey": {"f_sky": f_sky, "shot_noise_file": shot_noise_file},
            "cosmology": {"model_name": "CPL", "flat": flat, "parameters": list(params)},
            "probes": sections, "derivative_settings": {"base_stem_disps": list(disps)}}

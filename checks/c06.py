"""C06: weight functions equal their defining integrals."""
from coslib import *
from scipy import integrate as sci
from scipy.interpolate import CubicSpline
from seyfert.cosmology import weight_functions as wfs
from seyfert.cosmology.bias import BiasError
from seyfert.utils import filesystem_utils as fsu

CHECK = Check("C06", ["Redshift grids start above zero (the lensing kernel of the code is undefined at z = 0).",
                      "On the grid the 'simpson' efficiency is Simpson's rule (scipy) over the nodes behind z; the 'quad' one is "
                      "compared with Gauss-Legendre quadrature to 1e-4.",
                      "The shipped mean-luminosity table is linearly interpolated (and linearly extrapolated)."])


def lum_table():
    return np.loadtxt(fsu.default_data_dir() / "scaledmeanlum-E2Sa.dat", unpack=True)


def linear(x, xp, yp):
    out = np.interp(x, xp, yp)
    lo, hi = x < xp[0], x > xp[-1]
    out[lo] = yp[0] + (x[lo] - xp[0]) * (yp[1] - yp[0]) / (xp[1] - xp[0])
    out[hi] = yp[-1] + (x[hi] - xp[-1]) * (yp[-1] - yp[-2]) / (xp[-1] - xp[-2])
    return out


IA = st.fixed_dictionaries({"aIA": nice(-2, 3, 50), "cIA": nice(0.001, 0.02, 19), "etaIA": nice(-1.5, 1, 25), "betaIA": nice(0, 3, 30)})


@st.composite
def lensing_case(draw):
    return {"u": draw(background((3, 24))), "d": draw(density()), "ia": draw(IA), "include": draw(st.booleans()),
            "preset": draw(st.booleans()), "scalar": draw(st.integers(0, 30)), "order": draw(st.permutations(["aIA", "cIA", "etaIA", "betaIA"]))}


@CHECK.prop(lensing_case(), quick=150, thorough=4000, rule="several bins")
def lensing_on_the_grid(case, ctx):
    cosmo = build_background(case["u"], exact=False)
    z = cosmo.z_grid
    dens = build_density(case["d"], z, "Lensing")
    if dens.norm_density_iz is None and case["preset"]:
        dens.evaluate(z)
    ctx.nontrivial(case["d"]["n"] > 1)
    ctx.label("IA" if case["include"] else "no IA")
    ia = case["ia"]
    pars = nuisance({k: (9.9, ia[k]) for k in case["order"]}, "Lensing")
    w = wfs.weight_function_for_probe("Lensing", probe_config=probe_config(specific_settings={"include_IA": case["include"]}),
                                      nuisance_params=pars, cosmology=cosmo, fiducial_cosmology=cosmo,
                                      angular_config=angular_config(lensing="simpson"))
    eq(w.probe, "Lensing", "probe")
    check(not w.is_evaluated, "not evaluated yet")
    w.density = dens
    w.evaluateOverRedshiftGrid(z)
    n_i = np.array(dens.norm_density_iz)
    if not case["d"]["sparse"]:
        zin = dens.input_z_domain
        for i in range(case["d"]["n"]):
            close(n_i[i], CubicSpline(zin, dens.input_n_iz[i], bc_type="not-a-knot")(z), "density on the grid", rtol=1e-8, atol=1e-8)
    r = C_KM_S / cosmo.H0 * cosmo.dimensionless_comoving_distance_array
    E = cosmo.dimensionless_hubble_array
    lum = linear(z, *lum_table())
    eq(w.w_bin_z.shape, n_i.shape, "shape")
    for i in range(len(n_i)):
        eff = np.array([sci.simpson(n_i[i, a:] * (1 - r[a] / r[a:]), x=z[a:]) for a in range(len(z))])
        close_scaled(w.computeLensingEfficiencyAtBin(i, z), eff, f"efficiency of bin {i}", tol=1e-9)
        a = case["scalar"] % len(z)
        close(w.computeLensingEfficiencyAtBin(i, float(z[a])), eff[a], "efficiency of a scalar redshift", rtol=1e-9,
              atol=1e-12)
        want = 1.5 * case["u"]["Omm"] * (100 * case["u"]["h"] / C_KM_S) ** 2 * (1 + z) * r * eff
        scale = np.max(np.abs(want))
        if case["include"]:
            ia_term = ia["aIA"] * ia["cIA"] * case["u"]["Omm"] * (1 + z) ** ia["etaIA"] * lum ** ia["betaIA"] \
                / cosmo.growth_factor_z * n_i[i] * 100 * case["u"]["h"] * E / C_KM_S
            want = want - ia_term
            scale += np.max(np.abs(ia_term))
        close(w.w_bin_z[i], want, f"lensing weight of bin {i}", rtol=1e-9, atol=1e-11 * scale)
        close(eff[-1], 0, "no source behind the last redshift", atol=1e-15)
    close(w.shot_noise_factor, 0.3 ** 2, "shape noise factor", rtol=1e-12)
    same_bits(w.z_grid, z, "grid")
    eq(w.n_bins, case["d"]["n"], "bins")


@st.composite
def quad_case(draw):
    u = draw(background((6, 6)))
    return {"u": u, "d": draw(density((1, 2))), "t": draw(st.lists(nice(0, 0.9, 30), min_size=1, max_size=2, unique=True)), "flat": draw(nice(0, 1, 5))}


GX, GW = np.polynomial.legendre.leggauss(12)


@CHECK.prop(quad_case(), quick=12, thorough=200, rule="every case")
def lensing_efficiency_by_quadrature(case, ctx):
    ctx.nontrivial()
    cosmo = build_background(case["u"], exact=True)
    z = cosmo.z_grid
    case["d"]["sparse"] = False
    dens = build_density(case["d"], z, "Lensing")
    w = wfs.weight_function_for_probe("Lensing", cosmology=cosmo, angular_config=angular_config(lensing="quad"))
    w.density = dens
    zin = dens.input_z_domain
    vals = {"Omm": case["u"]["Omm"], "w0": case["u"]["w0"], "wa": case["u"]["wa"]}

    def inv_e(x):
        de = (1 + x) ** (3 * (1 + vals["w0"] + vals["wa"])) * np.exp(-3 * vals["wa"] * x / (1 + x))
        return 1 / np.sqrt(vals["Omm"] * (1 + x) ** 3 + (1 - vals["Omm"]) * de)
    fine = np.linspace(0, zin[-1], 3001)
    rr = CubicSpline(fine, np.concatenate([[0], np.cumsum([
        np.sum(GW * inv_e((a + b) / 2 + (b - a) / 2 * GX)) * (b - a) / 2 for a, b in zip(fine[:-1], fine[1:])])]))
    zs = np.array(sorted(z[0] + (z[-1] - z[0]) * t for t in case["t"]))
    i = case["d"]["n"] - 1
    cs = CubicSpline(zin, dens.input_n_iz[i], bc_type="not-a-knot")
    want = []
    for a in zs:
        pts = np.unique(np.concatenate([[a, zin[-1]], zin[(zin > a)], np.linspace(a, zin[-1], 30)]))
        x = (pts[:-1, None] + pts[1:, None]) / 2 + np.diff(pts)[:, None] / 2 * GX
        want.append(float(np.sum(cs(x) * (1 - rr(a) / rr(x)) * GW * np.diff(pts)[:, None] / 2)))
    close(w.computeLensingEfficiencyAtBin(i, zs), want, "efficiency", rtol=1e-4, atol=1e-6)
    close(w.computeLensingEfficiencyAtBin(i, float(zs[0])), want[0], "efficiency of a scalar", rtol=1e-4, atol=1e-6)
    raises(TypeError, lambda: w.computeLensingEfficiencyAtBin(i, [0.1]), "efficiency of a list")
    w.lensing_efficiency_integration_method = "nonsense"
    raises(ValueError, lambda: w.computeLensingEfficiencyAtBin(i, zs), "unknown integration method")


@st.composite
def galaxy_case(draw):
    n = draw(st.one_of(st.integers(1, 5), st.integers(10, 13)))
    return {"u": draw(background((4, 16))), "d": draw(density((n, n))), "probe": draw(st.sampled_from(PROBES[:2])),
            "model": draw(st.sampled_from(["piecewise", "constant", "euclid_flagship_photo"])),
            "fid": draw(vec(max(n, 4), nice(0.5, 3, 50))), "cur": draw(vec(max(n, 4), nice(0.5, 3, 50))), "twice": draw(st.booleans())}


@CHECK.prop(galaxy_case(), quick=120, thorough=3000, rule="several bins")
def galaxy_clustering(case, ctx):
    n, probe = case["d"]["n"], case["probe"]
    cosmo = build_background(case["u"], exact=False)
    z = cosmo.z_grid
    dens = build_density(case["d"], z, probe)
    edges = dens.z_bin_edges
    pre = PREFIX[probe]
    names = ["Aph", "Bph", "Cph", "Dph"] if case["model"] == "euclid_flagship_photo" else [f"{pre}{i}" for i in range(n)]
    f = bias_file(ctx.tmp() / "b.h5", probe, case["model"], edges, dict(zip(names, case["fid"])))
    pars = nuisance({k: (a, b) for k, a, b in zip(names, case["fid"], case["cur"])}, probe)
    w = wfs.weight_function_for_probe(probe, probe_config=probe_config(bias_init_file=f), nuisance_params=pars, cosmology=cosmo,
                                      fiducial_cosmology=cosmo)
    eq(w.probe, probe, "probe")
    eq(float(w.shot_noise_factor), 1.0, "shot noise factor")
    w.density = dens
    w.setUp()
    ctx.nontrivial(n > 1)
    ctx.label(case["model"])

    def want(vals):
        if case["model"] == "constant":
            b = np.array([[vals[i]] * len(z) for i in range(n)])
        elif case["model"] == "piecewise":
            b = np.array([[vals[min(max(int(np.sum(x >= edges)) - 1, 0), n - 1)] for x in z]] * n)
        else:
            b = np.array([vals[0] + vals[1] / (1 + np.exp(-vals[2] * (z - vals[3])))] * n)
        return b, 100 * case["u"]["h"] * cosmo.dimensionless_hubble_array / C_KM_S * dens.norm_density_iz * b
    w.evaluateOverRedshiftGrid(z)
    b, ww = want(case["cur"])
    close(w.bias.b_i_z, b, "bias", rtol=1e-12)
    close(w.w_bin_z, ww, "galaxy weight", rtol=1e-10, atol=1e-300)
    if case["twice"]:  # the current values at evaluation time count
        k = 0
        pars[names[k]].current_value = 5.5
        w.evaluateOverRedshiftGrid(z)
        b, ww = want([5.5] + list(case["cur"][1:]))
        close(w.w_bin_z, ww, "galaxy weight after a change of bias", rtol=1e-10, atol=1e-300)
    close(w.n_i_z, dens.norm_density_iz, "density")
    for i in range(n):
        check(bool(np.all(w.w_bin_z[i][np.asarray(dens.norm_density_iz[i]) == 0] == 0)), "no galaxies, no weight")


@CHECK.prop(st.fixed_dictionaries({"u": background((4, 12)), "d": st.lists(density((1, 3)), min_size=2, max_size=2), "probe": st.sampled_from(["Lensing", "PhotometricGalaxy", "Void"]),
                                   "shift": nice(0.05, 0.3, 5), "same_file": st.booleans()}),
            quick=40, thorough=600, rule="both densities in the same file")
def density_comes_from_the_configured_file(case, ctx):
    """each weight function has the density that its file holds when it is set up, on its own grid"""
    ctx.nontrivial(case["same_file"])
    tmp, probe = ctx.tmp(), case["probe"]
    for k, d in enumerate(case["d"]):
        u = dict(case["u"], zmin=case["u"]["zmin"] + k * case["shift"])
        cosmo = build_background(u, exact=False)
        z = cosmo.z_grid
        dens = build_density({**d, "sparse": False}, z, probe)
        f = tmp / ("density.h5" if case["same_file"] else f"density{k}.h5")
        if f.exists():
            f.unlink()
        dens.saveToHDF5(f)
        for grid in (z, z[1:], (z + z[0]) / 2):
            w = wfs.weight_function_for_probe(probe, probe_config=probe_config(density_init_file=f, specific_settings={"include_IA": False}),
                                              cosmology=cosmo, fiducial_cosmology=cosmo, angular_config=angular_config())
            w.setUp()
            if probe == "Lensing" and grid is z:
                w.evaluateOverRedshiftGrid(grid)
            else:
                w.density.evaluate(grid)
            check(w.n_bins == d["n"] and w.density.probe == probe, "the density of the file")
            for i in range(d["n"]):
                close(w.density.norm_density_iz[i], CubicSpline(dens.input_z_domain, dens.input_n_iz[i], bc_type="not-a-knot")(grid),
                      "density read from the file, on the grid", rtol=1e-8, atol=1e-8)


@st.composite
def void_case(draw):
    return {"u": draw(background((4, 12))), "d": draw(density((1, 4))), "vb": [draw(nice(-5, 5, 40)), draw(nice(-5, 5, 40))],
            "growth": draw(nice(0.2, 1.5, 13))}


@CHECK.prop(void_case(), quick=60, thorough=1500, rule="several bins")
def voids(case, ctx):
    n = case["d"]["n"]
    cosmo = build_background(case["u"], exact=False)
    fid = build_background(case["u"], exact=False)
    z = cosmo.z_grid
    fid.growth_factor_z = np.exp(-case["growth"] * z)
    dens = build_density(case["d"], z, "Void")
    edges = dens.z_bin_edges
    f = bias_file(ctx.tmp() / "b.h5", "Void", "fiducial_growth_void", edges, {"voidbias0": case["vb"][0]})
    pars = nuisance({"voidbias0": tuple(case["vb"])}, "Void")
    w = wfs.weight_function_for_probe("Void", probe_config=probe_config(bias_init_file=f), nuisance_params=pars, cosmology=cosmo,
                                      fiducial_cosmology=fid)
    w.density = dens
    w.evaluateOverRedshiftGrid(z)
    ctx.nontrivial(n > 1)
    b = CubicSpline(z, case["vb"][1] / fid.growth_factor_z, bc_type="not-a-knot")(0.5 * (edges[1:] + edges[:-1]))
    want = 100 * case["u"]["h"] * cosmo.dimensionless_hubble_array / C_KM_S * dens.norm_density_iz * b[:, None]
    scale = float(np.max(np.abs(want))) + 1e-30
    close(w.w_bin_z, want, "void weight", rtol=1e-7, atol=1e-9 * scale)
    g = bias_file(ctx.tmp() / "c.h5", "Void", "piecewise", edges, {f"bvd{i}": 1.0 for i in range(n)})
    w2 = wfs.weight_function_for_probe("Void", probe_config=probe_config(bias_init_file=g), cosmology=cosmo, fiducial_cosmology=fid,
                                       nuisance_params=nuisance({f"bvd{i}": (1, 1) for i in range(n)}, "Void"))
    w2.density = dens
    raises((NotImplementedError, BiasError), w2.setupBias, "unsupported void bias model")

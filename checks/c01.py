"""C01: background expansion, distances, growth and filtered variance."""
from pbt import *
from seyfert.cosmology.cosmology import Cosmology, CosmologyError
from seyfert.cosmology.parameter import PhysicalParameter
from seyfert.cosmology.power_spectrum import PowerSpectrum

CHECK = Check("C01", ["Distances follow the code's documented definition (integral of 1/E, no sin/sinh curvature term).",
                      "The filter of sigma_R is the documented smooth top-hat in k (smoothstep of order 3 between 0.9/R and 1.1/R).",
                      "Quadratures are compared to 1e-6 relative."])
C_KM_S = 299792.458


@st.composite
def pars(draw):
    flat = draw(st.booleans())
    omm = draw(nice(0.05, 0.9, 85))
    omde = 1 - omm if flat else draw(nice(0.0, 1.0, 100))
    cur = {"Omm": round(omm, 4), "OmDE": round(omde, 4), "w0": draw(nice(-2.0, 0.4, 240)), "wa": draw(nice(-1.9, 1.5, 340)),
           "h": draw(nice(0.4, 1.0, 60)), "gamma": draw(nice(0.3, 0.8, 50)), "Omb": 0.05, "ns": 0.96, "sigma8": 0.8, "mnu": 0.06}
    fid = dict(cur)
    for n in draw(st.sets(st.sampled_from(sorted(cur)))):
        fid[n] = {"Omm": 0.3, "OmDE": 0.7, "w0": -1.0, "wa": 0.0, "h": 0.67, "gamma": 0.55, "Omb": 0.04, "ns": 1.0,
                  "sigma8": 0.9, "mnu": 0.1}[n]
    return {"flat": flat, "current": cur, "fiducial": fid, "order": draw(st.permutations(sorted(cur)))}


@st.composite
def grid(draw, zmax=4.0, hi=7):
    n = draw(st.integers(1, hi))
    ks = sorted(draw(st.sets(st.integers(0, 400), min_size=n, max_size=n)))
    return [zmax * k / 400 for k in ks]


@st.composite
def pmm(draw, nz):
    nk = draw(st.integers(2, 12)) * 2 + 1
    return {"nk": nk, "lk": [draw(nice(-4, -2, 20)), draw(nice(-0.5, 1.5, 20))], "uniform": draw(st.booleans()),
            "amp": draw(nice(0.1, 1e4, 1000)), "tilt": draw(nice(-3, 1, 40)), "seed": draw(st.integers(0, 10**6)), "nz": nz}


def build(p):
    cur, fid = p["current"], p["fiducial"]
    params = {n: PhysicalParameter(name=n, fiducial=fid[n], current_value=cur[n], kind=PhysicalParameter.COSMO_PAR_STRING,
                                   is_free_parameter=True) for n in p["order"]}
    return Cosmology(params=params, flat=p["flat"])


def E2(c, z):
    z = np.asarray(z, dtype=float)
    a = 1 / (1 + z)
    # CPL dark energy density integrated from w(a) = w0 + wa (1-a)
    de = np.exp(-3 * (1 + c["w0"] + c["wa"]) * np.log(a)) * np.exp(-3 * c["wa"] * (1 - a))
    return c["Omm"] / a ** 3 + c["OmDE"] * de + (1 - c["Omm"] - c["OmDE"]) / a ** 2


X, W = np.polynomial.legendre.leggauss(80)


def quad_ref(f, z):
    """integral of f from 0 to z in the variable ln(1+z)"""
    out = []
    for zz in np.atleast_1d(z):
        u = 0.5 * np.log1p(zz) * (X + 1)
        zs = np.expm1(u)
        out.append(float(np.sum(W * f(zs) * (1 + zs)) * 0.5 * np.log1p(zz)))
    return np.array(out)


def well_behaved(c, zmax):
    return float(np.min(E2(c, np.linspace(0, zmax, 200)))) > 0.05


def make_power(case):
    lk = case["lk"]
    k = 10 ** np.linspace(lk[0], lk[1], case["nk"]) if not case["uniform"] else np.linspace(10 ** lk[0], 10 ** lk[1], case["nk"])
    noise = lcg(case["seed"], case["nz"] * case["nk"], 0.5, 1.5).reshape(case["nz"], case["nk"])
    lin = case["amp"] * (k / k[0]) ** case["tilt"] * noise
    nonlin = lin * (1 + lcg(case["seed"] + 1, lin.size, 0, 1).reshape(lin.shape))
    return k, lin, nonlin


@CHECK.prop(st.fixed_dictionaries({"p": pars(), "z": grid()}), quick=250, thorough=6000,
            rule="dynamical dark energy (wa != 0) or curved")
def expansion_and_distance(case, ctx):
    p, z = case["p"], np.array(case["z"])
    c = p["current"]
    if not well_behaved(c, 4.0):
        ctx.label("discarded: no expansion history")
        return
    cosmo = build(p)
    ctx.nontrivial(c["wa"] != 0 or not p["flat"])
    ctx.label("flat" if p["flat"] else "curved", "phantom" if c["w0"] < -1 else "not phantom")
    close(cosmo.OmK, 1 - c["Omm"] - c["OmDE"], "curvature closes the budget", atol=1e-9)
    for n in ("Omm", "OmDE", "Omb", "w0", "wa", "h", "ns", "sigma8", "mnu", "gamma"):
        eq(getattr(cosmo, n), c[n], f"current value of {n}")
    close(cosmo.H0, 100 * c["h"], "H0", rtol=1e-14)
    close(cosmo.c_km_s, C_KM_S, "speed of light", rtol=1e-14)
    e = np.sqrt(E2(c, z))
    close(cosmo.computeDimensionlessHubbleParameter(z), e, "E(z)", rtol=1e-10)
    close(cosmo.computeReciprocalDimensionlessHubbleParameter(z), 1 / e, "1/E(z)", rtol=1e-10)
    close(cosmo.computeHubbleParameter(z), 100 * c["h"] * e, "H(z)", rtol=1e-10)
    close(cosmo.Omega_m_of_z(z), c["Omm"] * (1 + z) ** 3 / e ** 2, "OmegaM(z)", rtol=1e-10)
    close(cosmo.computeHubbleParameter(0.0), cosmo.H0, "H(0) = H0", rtol=1e-12)
    r = quad_ref(lambda x: 1 / np.sqrt(E2(c, x)), z)
    got = cosmo.computeDimensionlessComovingDistance(z)
    close(got, r, "dimensionless comoving distance", rtol=1e-6, atol=1e-9)
    check(bool(np.all(np.diff(got) > 0)), "comoving distance grows with redshift")
    eq(float(cosmo.computeDimensionlessComovingDistance(0.0)), 0.0, "distance at z=0")
    close(cosmo.computeComovingDistance(z), C_KM_S / (100 * c["h"]) * r, "comoving distance in Mpc", rtol=1e-6, atol=1e-5)
    for zz, ee, rr in zip(z, e, r):  # scalars agree with arrays
        close(cosmo.computeDimensionlessHubbleParameter(float(zz)), ee, "E(z) of a scalar", rtol=1e-10)
        close(cosmo.computeDimensionlessComovingDistance(float(zz)), rr, "distance of a scalar", rtol=1e-6, atol=1e-9)
    raises(TypeError, lambda: cosmo.computeDimensionlessComovingDistance([0.1]), "distance of a list")


@CHECK.prop(st.fixed_dictionaries({"p": pars(), "z": grid(3.0, 5)}), quick=100, thorough=2500,
            rule="more than one redshift")
def growth_from_growth_rate(case, ctx):
    p, z = case["p"], np.array(case["z"])
    c = p["current"]
    if not well_behaved(c, 3.0):
        return
    cosmo = build(p)
    ctx.nontrivial(len(z) > 1)

    def rate(x):
        return (c["Omm"] * (1 + x) ** 3 / E2(c, x)) ** c["gamma"]
    want = np.exp(-quad_ref(lambda x: rate(x) / (1 + x), z))
    got = cosmo.computeGrowthFactor(z)
    close(cosmo.computeLogGrowthIntegrand(z), rate(z) / (1 + z), "growth integrand", rtol=1e-9)
    close(got, want, "growth factor", rtol=1e-6)
    close(cosmo.computeGrowthFactor(0.0), 1.0, "growth factor today", rtol=1e-12)
    close(cosmo.computeGrowthFactor(float(z[-1])), want[-1], "growth factor of a scalar", rtol=1e-6)
    check(bool(np.all(np.diff(got) < 0)), "growth decreases with redshift")


@st.composite
def on_grid(draw):
    z = draw(grid(3.0, 5))
    return {"p": draw(pars()), "z": z, "pmm": draw(pmm(len(z))), "preset": draw(st.sampled_from(["none", "none", "E", "r", "D"])),
            "rescale": draw(st.booleans()), "tilt": draw(nice(-1.5, 1.0, 25))}


@CHECK.prop(on_grid(), quick=150, thorough=3000, rule="at least two redshifts")
def evaluated_on_the_grid(case, ctx):
    p, z = case["p"], np.array(case["z"])
    c = p["current"]
    if not well_behaved(c, 3.0):
        return
    ctx.nontrivial(len(z) >= 2)
    ctx.label("preset " + case["preset"])
    cosmo = build(p)
    raises(ValueError, cosmo.evaluateOverRedshiftGrid, "evaluation without a redshift grid")
    k, lin, nonlin = make_power(case["pmm"])
    ps = PowerSpectrum()
    ps.z_grid, ps.k_grid, ps.lin_p_mm_z_k, ps.nonlin_p_mm_z_k = z.copy(), k.copy(), lin.copy(), nonlin.copy()
    cosmo.power_spectrum = ps
    cosmo.z_grid = z.copy()
    e, r = np.sqrt(E2(c, z)), quad_ref(lambda x: 1 / np.sqrt(E2(c, x)), z)
    D = np.sqrt(lin[:, 0] / lin[0, 0])
    if case["preset"] == "E":
        e = 3.0 + z
        cosmo.dimensionless_hubble_array = e.copy()
    elif case["preset"] == "r":
        r = 2.0 * z
        cosmo.dimensionless_comoving_distance_array = r.copy()
    elif case["preset"] == "D":
        D = 1 / (1 + z)
        cosmo.growth_factor_z = D.copy()
    close(ps.getGrowthFromLinearPowerSpectrum(), np.sqrt(lin[:, 0] / lin[0, 0]), "growth from the linear spectrum", rtol=1e-12)
    for _ in range(2):  # idempotent
        cosmo.evaluateOverRedshiftGrid()
        close(cosmo.E_z, e, "E on the grid", rtol=1e-10)
        close(cosmo.r_tilde_z, r, "dimensionless distance on the grid", rtol=1e-6, atol=1e-9)
        close(cosmo.H_z, 100 * c["h"] * e, "H on the grid", rtol=1e-10)
        close(cosmo.r_z, C_KM_S / (100 * c["h"]) * r, "distance on the grid", rtol=1e-6, atol=1e-5)
        close(cosmo.growth_factor_z, D, "growth on the grid", rtol=1e-12)
    same_bits(cosmo.z_grid, z, "redshift grid untouched")
    same_bits(cosmo.k_grid, k, "k grid")
    same_bits(ps.lin_p_mm_z_k, lin, "linear spectrum untouched")
    same_bits(ps.nonlin_p_mm_z_k, nonlin, "nonlinear spectrum untouched")
    if case["rescale"]:
        new_D = np.exp(case["tilt"] * z)
        cosmo.growth_factor_z = new_D.copy()
        cosmo.rescalePowerSpectrumByComputedGrowth()
        s = (new_D ** 2 / (lin[:, 0] / lin[0, 0]))[:, None]
        close(ps.lin_p_mm_z_k, lin * s, "rescaled linear spectrum", rtol=1e-10)
        close(ps.nonlin_p_mm_z_k, nonlin * s, "rescaled nonlinear spectrum", rtol=1e-10)
        close(ps.getGrowthFromLinearPowerSpectrum(), new_D / new_D[0], "growth after rescaling", rtol=1e-10)


def smooth3(x, a, b):
    t = np.clip((x - a) / (b - a), 0, 1)
    return t ** 4 * (35 - 84 * t + 70 * t ** 2 - 20 * t ** 3)


def simpson(y, x):
    tot = 0.0
    for i in range(0, len(x) - 2, 2):
        h0, h1 = x[i + 1] - x[i], x[i + 2] - x[i + 1]
        tot += (h0 + h1) / 6 * ((2 - h1 / h0) * y[i] + (h0 + h1) ** 2 / (h0 * h1) * y[i + 1] + (2 - h0 / h1) * y[i + 2])
    return tot


@st.composite
def sigma_case(draw):
    c = draw(pmm(draw(st.integers(1, 3))))
    c["nk"] = draw(st.integers(5, 60)) * 2 + 1
    return {"pmm": c, "R": draw(st.lists(nice(0.5, 100, 400), min_size=1, max_size=4)), "scale": draw(nice(0.1, 10, 99)),
            "intR": draw(st.integers(1, 50))}


@CHECK.prop(sigma_case(), quick=200, thorough=4000, rule="filter cuts inside the k range")
def filtered_variance(case, ctx):
    k, lin, _ = make_power(case["pmm"])

    def ref(R, P):
        w = 1 - smooth3(k, 0.9 / R, 1.1 / R)
        y = k ** 2 * P * w ** 2 / (2 * np.pi ** 2)
        return simpson(y, k), simpson(np.abs(y), k)
    cosmo = Cosmology()
    ps = PowerSpectrum()
    ps.k_grid, ps.lin_p_mm_z_k = k, lin
    cosmo.power_spectrum = ps
    R = np.array(case["R"])
    ctx.nontrivial(any(k[0] < 1 / x < k[-1] for x in R))
    refs = [ref(x, lin[0]) for x in R]
    ok = [i for i, (v, s) in enumerate(refs) if v > 1e-6 * s > 0]  # Simpson weights can make it (slightly) negative
    got = cosmo.computeSigmaR(R)
    for i in ok:
        close(got[i], np.sqrt(refs[i][0]), f"sigma at R={R[i]}", rtol=1e-7)
        close(cosmo.computeSigmaR(float(R[i])), np.sqrt(refs[i][0]), "sigma_R of a scalar", rtol=1e-7)
        close(Cosmology.sigmaR(float(R[i]), P_lin=lin[-1] * case["scale"] ** 2, k=k),
              case["scale"] * Cosmology.sigmaR(float(R[i]), P_lin=lin[-1], k=k), "sigma_R scales with the amplitude", rtol=1e-9)
    v, s = ref(case["intR"], lin[0])
    if v > 1e-6 * s > 0:
        close(cosmo.computeSigmaR(case["intR"]), np.sqrt(v), "sigma_R of an integer radius", rtol=1e-7)
        close(cosmo.computeSigmaR(np.array([case["intR"]])), [np.sqrt(v)], "sigma_R of an array of integer radii", rtol=1e-7)
    raises(TypeError, lambda: cosmo.computeSigmaR([1.0]), "sigma_R of a list")


@st.composite
def invalid_case(draw):
    wrong = draw(st.sampled_from([["w0"], ["wa"], ["omk"], ["omk"], ["omk"], ["w0", "wa", "omk"], []]))
    return {"p": draw(pars()), "w0": draw(nice(1.0, 3.0, 20)) if "w0" in wrong else None, "wa": draw(nice(2.0, 4, 20)) if "wa" in wrong else None,
            "sign": draw(st.sampled_from([1, -1])), "which": draw(st.sampled_from(["fiducial", "current"])),
            "omk": draw(st.sampled_from([-0.1, 1e-3, 0.2, 1e-6, -1e-4, 3e-8, -2e-9])) if "omk" in wrong else None}


@CHECK.prop(invalid_case(), quick=150, thorough=2000, rule="an invalid value")
def invalid_cosmologies_are_refused(case, ctx):
    p = case["p"]
    bad = False
    if case["w0"] is not None:
        p[case["which"]]["w0"] = case["w0"]
        bad = True
    if case["wa"] is not None:
        p[case["which"]]["wa"] = case["sign"] * case["wa"]
        bad = True
    if case["omk"] is not None:
        p["current"]["OmDE"] = p["current"]["OmDE"] + case["omk"]
        bad = bad or p["flat"]
    ctx.nontrivial(bad)
    if bad:
        raises(CosmologyError, lambda: build(p), "invalid cosmology")
    else:
        c = build(p)
        close(c.OmK, 1 - p["current"]["Omm"] - p["current"]["OmDE"], "curvature density", rtol=0, atol=1e-10)
    cosmo = build(dict(p, flat=False, current=dict(p["current"], w0=-1.0, wa=0.0), fiducial=dict(p["fiducial"], w0=-1.0, wa=0.0)))
    raises(CosmologyError, lambda: Cosmology(params=cosmo.params), "parameters without flatness")
    raises(CosmologyError, lambda: Cosmology(flat=True), "flatness without parameters")
    # an invalid cosmology read from a file is refused as well
    ok = build(dict(p, flat=False, current=dict(p["current"], w0=-1.0, wa=0.0, OmDE=1 - p["current"]["Omm"]), fiducial=dict(p["fiducial"], w0=-1.0, wa=0.0)))
    ok.z_grid = np.array([0.1, 0.2])
    ok.is_flat = p["flat"]
    for n in ("w0", "wa", "OmDE"):
        ok.params[n].current_value, ok.params[n].fiducial = p["current"][n], p["fiducial"][n]
    f = ctx.tmp() / "c.h5"
    ok.saveToHDF5(f)
    for what, fn in (("read", lambda: Cosmology.fromHDF5(f, load_power_spectrum=False)), ("read into an empty cosmology", lambda: Cosmology().loadFromHDF5(f, load_power_spectrum=False))):
        if bad:
            raises(CosmologyError, fn, f"invalid cosmology {what} from a file")
        else:
            fn()

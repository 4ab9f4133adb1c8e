"""C05: bias models."""
from pbt import *
from types import SimpleNamespace
from scipy.interpolate import CubicSpline
from seyfert.cosmology.bias import Bias, BiasError
from seyfert.cosmology.cosmology import Cosmology
from seyfert.cosmology.power_spectrum import PowerSpectrum

CHECK = Check("C05", ["Nuisance parameters are numbered by the first integer in their name (bgph0, bgph1, ...).",
                      "A redshift on an interior edge belongs to the upper bin; outside the edges the nearest bin extends.",
                      "The void size function model is compared with an independent transcription of its published formulae."])


@st.composite
def layout(draw):
    n = draw(st.one_of(st.integers(1, 5), st.integers(9, 14)))
    cuts = sorted(draw(st.sets(st.integers(1, 60), min_size=n + 1, max_size=n + 1)))
    base = draw(st.integers(0, 1))
    vals = [v / 100 for v in draw(st.lists(st.integers(50, 400), min_size=n, max_size=n, unique=True))]
    return {"n": n, "edges": [c / 20 for c in cuts], "prefix": draw(st.sampled_from(["bgph", "bgsp"])), "base": base,
            "vals": vals, "order": draw(st.permutations(range(n)))}


def bias_of(case, model, **extra):
    b = Bias(probe="PhotometricGalaxy", z_bin_edges=np.array(case["edges"]))
    b.model_name = model
    b.nuisance_parameters = {f"{case['prefix']}{i + case['base']}": case["vals"][i] for i in case["order"]}
    b.additional_parameters = {}
    return b


def evaluate(b, z, **kw):
    b.initBiasModel(**kw)
    b.evaluateBias(z)
    return np.array(b.b_i_z)


def reload(b, ctx):
    f = ctx.tmp() / "bias.h5"
    b.saveToHDF5(f)
    new = Bias.fromHDF5(f)
    eq(new.model_name, b.model_name, "model of the reloaded bias")
    eq(dict(new.nuisance_parameters), dict(b.nuisance_parameters), "nuisance parameters of the reloaded bias")
    return new


@st.composite
def step_case(draw):
    c = draw(layout())
    pts = draw(st.lists(st.one_of(nice(0, 3.5, 700), st.sampled_from(c["edges"])), min_size=1, max_size=25))
    return {"c": c, "z": sorted(set(pts)), "changed": draw(st.integers(0, 20)), "model": draw(st.sampled_from(["piecewise", "constant"])),
            "drop": draw(st.booleans()), "reload": draw(st.booleans())}


@CHECK.prop(step_case(), quick=300, thorough=8000, rule="several bins stored out of order, or more than nine bins")
def step_models(case, ctx):
    c, z = case["c"], np.array(case["z"])
    n, edges, vals = c["n"], c["edges"], c["vals"]
    ctx.label(case["model"], "above nine bins" if n > 9 else "few bins")
    ctx.nontrivial(n > 1 and (list(c["order"]) != list(range(n)) or n > 9))
    b = bias_of(c, case["model"])
    if case["reload"]:
        b = reload(b, ctx)
    got = evaluate(b, z.copy())

    def ref(v):
        if case["model"] == "constant":
            return np.array([[v[i]] * len(z) for i in range(n)])
        row = []
        for x in z:
            k = 0
            while k < n - 1 and x >= edges[k + 1]:
                k += 1
            row.append(v[k])
        return np.array([row] * n)
    same_bits(got, ref(vals), f"{case['model']} bias")
    same_bits(b.z_grid, z, "grid stored")
    check(b.has_output, "bias has its output")
    # changing one parameter
    k = case["changed"] % n
    new = list(vals)
    new[k] = 7.5
    b.nuisance_parameters[f"{c['prefix']}{k + c['base']}"] = 7.5
    same_bits(evaluate(b, z.copy()), ref(new), f"bias after changing the parameter of bin {k}")
    if case["drop"]:
        b.nuisance_parameters.pop(f"{c['prefix']}{k + c['base']}")
        raises(BiasError, lambda: evaluate(b, z), "fewer values than bins")
    b.model_name = "not a model"
    raises(KeyError, b.initBiasModel, "unknown bias model")


@CHECK.prop(st.fixed_dictionaries({"c": layout(), "z": st.lists(nice(0, 3, 60), min_size=1, max_size=10), "p": vec(4, nice(0.1, 3, 58)),
                                   "order": st.permutations(["Aph", "Bph", "Cph", "Dph"])}), quick=150, thorough=3000, rule="several bins")
def flagship_model(case, ctx):
    c, z = case["c"], np.array(case["z"])
    ctx.nontrivial(c["n"] > 1)
    p = dict(zip(["Aph", "Bph", "Cph", "Dph"], case["p"]))
    b = bias_of(c, "euclid_flagship_photo")
    b.nuisance_parameters = {k: p[k] for k in case["order"]}
    want = [p["Aph"] + p["Bph"] / (1 + math.exp(-p["Cph"] * (x - p["Dph"]))) for x in z]
    close(evaluate(b, z), [want] * c["n"], "flagship bias", rtol=1e-12)


def growth(seed, z):
    return np.exp(-np.cumsum(np.concatenate([[0], np.diff(z)])) * lcg(seed, 1, 0.3, 0.8)[0]) * (1 + 0.02 * np.sin(3 * z))


@CHECK.prop(st.fixed_dictionaries({"c": layout(), "nz": st.integers(4, 40), "zmax": nice(0.5, 4, 35), "seed": st.integers(0, 10**6),
                                   "vb": nice(-6, 6, 120)}), quick=150, thorough=3000, rule="several bins")
def fiducial_growth_void(case, ctx):
    c = case["c"]
    ctx.nontrivial(c["n"] > 1)
    z = np.linspace(0.001, case["zmax"], case["nz"])
    D = growth(case["seed"], z)
    cosmo = SimpleNamespace(z_grid=z, growth_factor_z=D)
    b = bias_of(c, "fiducial_growth_void")
    b.nuisance_parameters = {"voidbias0": case["vb"]}
    raises(BiasError, b.initBiasModel, "void bias without a fiducial cosmology")
    got = evaluate(b, z.copy(), fiducial_cosmology=cosmo)
    e = np.array(c["edges"])
    centres = 0.5 * (e[1:] + e[:-1])
    want = CubicSpline(z, case["vb"] / D, bc_type="not-a-knot")(centres)
    scale = max(1.0, float(np.max(np.abs(want))))
    close(got, np.repeat(want[:, None], len(z), axis=1), "void bias", rtol=1e-7, atol=1e-9 * scale)
    raises(BiasError, lambda: b.evaluateBias(z + 0.01), "grid different from the cosmology's")


# --------------------------------------------------------------------------- void size function model
def smooth3(x, a, b):
    t = np.clip((x - a) / (b - a), 0, 1)
    return t ** 4 * (35 - 84 * t + 70 * t ** 2 - 20 * t ** 3)


def simpson(y, x):
    tot = 0.0
    for i in range(0, len(x) - 2, 2):
        h0, h1 = x[i + 1] - x[i], x[i + 2] - x[i + 1]
        tot += (h0 + h1) / 6 * ((2 - h1 / h0) * y[i] + (h0 + h1) ** 2 / (h0 * h1) * y[i + 1] + (2 - h0 / h1) * y[i + 2])
    return tot


@st.composite
def vdn_case(draw):
    rmin = draw(nice(10, 30, 20))
    return {"c": draw(layout()), "nz": draw(st.integers(4, 8)), "zmax": draw(nice(0.5, 2.5, 20)), "seed": draw(st.integers(0, 10 ** 6)),
            "R": [rmin, rmin + draw(nice(20, 100, 40)), 2 * draw(st.integers(2, 8)) + 1], "dc": draw(nice(1.5, 1.8, 30)),
            "dv": draw(nice(-2.8, -0.7, 21)), "amp": 10 ** draw(nice(4.5, 7.0, 50))}


@CHECK.prop(vdn_case(), quick=80, thorough=1500, rule="both multiplicity regimes")
def vdn_void(case, ctx):
    c = case["c"]
    z = np.linspace(0.001, case["zmax"], case["nz"])
    D = growth(case["seed"], z)
    k = np.logspace(-4, 0.5, 201)
    x = k / 0.02
    P = case["amp"] * x / (1 + x ** 2) ** 1.25
    cosmo = Cosmology()
    cosmo.z_grid, cosmo.growth_factor_z = z, D
    cosmo.power_spectrum = PowerSpectrum()
    cosmo.power_spectrum.k_grid = k
    cosmo.power_spectrum.lin_p_mm_z_k = P[None, :] * (D[:, None] / D[0]) ** 2
    b = bias_of(c, "vdn_void")
    b.nuisance_parameters = {}
    rmin, rmax, nR = case["R"]
    b.additional_parameters = {"R_min_Mpc": rmin, "R_max_Mpc": rmax, "R_grid_size": nR, "delta_c0": case["dc"], "delta_v0": case["dv"]}
    raises(BiasError, b.initBiasModel, "void bias without cosmology")
    got = evaluate(b, z.copy(), cosmology=cosmo)

    def sigma(R):
        w = 1 - smooth3(k, 0.9 / R, 1.1 / R)
        return math.sqrt(simpson(k ** 2 * P * w ** 2 / (2 * np.pi ** 2), k))
    R = np.linspace(rmin, rmax, nR)
    RL = R / 1.7
    h = 0.5 * (RL[1] - RL[0])
    sR = [sigma(r) for r in R]
    sRL = [sigma(r) for r in RL]
    slope = [(sigma(r - 2 * h) - 8 * sigma(r - h) + 8 * sigma(r + h) - sigma(r + 2 * h)) / (12 * h) for r in RL]
    out, regimes = [], set()
    for j in range(len(z)):
        dc, dv = case["dc"] / D[j], case["dv"] / D[j]
        barrier = abs(dv) / (abs(dv) + dc)
        size, bias = np.zeros(nR), np.zeros(nR)
        for i in range(nR):
            xx = barrier * sR[i] / abs(dv)
            if xx <= 0.276:
                f = math.sqrt(2 / math.pi) * abs(dv) / sR[i] * math.exp(-dv ** 2 / (2 * sR[i] ** 2))
            else:
                f = 2 * sum(n * math.pi * xx ** 2 * math.sin(n * math.pi * barrier) * math.exp(-(n * math.pi * xx) ** 2 / 2)
                            for n in range(1, 5))
            regimes.add(xx <= 0.276)
            size[i] = f / (R[i] * 4 * math.pi * R[i] ** 3 / 3) * (-RL[i] / sRL[i] * slope[i])
            nu = abs(dv) / sR[i]
            bias[i] = 1 + (nu ** 2 - 1) / dv + dv * barrier / (4 * dc ** 2 * nu ** 2)
        if not abs(simpson(size, R)) > max(1e-100, 1e-2 * simpson(np.abs(size), R)):
            ctx.label("discarded: no voids")
            return
        out.append(simpson(bias * size, R) / simpson(size, R))
    ctx.nontrivial(len(regimes) == 2)
    ctx.label(*("small x" if r else "large x" for r in regimes))
    e = np.array(c["edges"])
    want = CubicSpline(z, out, bc_type="not-a-knot")(0.5 * (e[1:] + e[:-1]))
    inside = (0.5 * (e[1:] + e[:-1]) <= z[-1])
    close(got[inside], np.repeat(want[inside][:, None], len(z), axis=1), "void bias", rtol=1e-5, atol=1e-6)
    eq(got.shape, (c["n"], len(z)), "shape")

"""C21: computed physics objects survive HDF5 storage."""
from coslib import *
from seyfert.cosmology import kernel_functions as kfs
from seyfert.cosmology import redshift_density as rds
from seyfert.cosmology import weight_functions as wfs
from seyfert.cosmology.c_ells import AngularCoefficient, AngularCoefficientsCollector
from seyfert.derivatives.cl_derivative import ClDerivative, ClDerivativeCollector, collect_cl_derivatives
from seyfert.fisher.delta_cl import DeltaCl, DeltaClCollection

CHECK = Check("C21", ["Roots are '/', one group or nested groups; stored arrays have at least one element (HDF5 filters need a chunk).",
                      "The name and the description of a cosmology or of a parameter are not part of the file format.",
                      "The spectra of one group share one weight function per probe (stored beside the group)."])

ROOTS = st.sampled_from(["/", "/", "a", "/a", "step_p3", "x/y", "x/y/z"])


def bits(got, want, what):
    g = np.asarray(got)
    w = np.ascontiguousarray(np.asarray(want, dtype=float))
    eq(g.shape, w.shape, f"{what}: shape")
    check(g.dtype == np.float64, f"{what}: stored as {g.dtype}")
    if np.ascontiguousarray(g).tobytes() != w.tobytes():
        same_bits(g, w, what)
        check(np.array_equal(np.signbit(g), np.signbit(w)), f"{what}: signs of zeros differ")


def arr(seed, *shape, special=0):
    """deterministic doubles of all magnitudes"""
    n = int(np.prod(shape))
    a = lcg(seed, n) * 10.0 ** np.round(lcg(seed + 9, n, -30, 30))
    if special:
        v = [0.0, -0.0, 5e-324, 1.7976931348623157e308, -1e-310, float("inf"), float("nan"), 1 / 3]
        for k in range(min(special, n)):
            a[(seed + 5 * k) % n] = v[(seed + k) % len(v)]
    return a.reshape(shape)


SEED_ = st.integers(0, 10 ** 6)
SPECIAL = st.sampled_from([0, 0, 3, 8])


# ---------------------------------------------------------------- power spectrum and cosmology
@st.composite
def cosmo_case(draw):
    return {"nz": draw(st.integers(1, 8)), "nk": draw(st.integers(1, 12)), "seed": draw(SEED_), "special": draw(SPECIAL), "root": draw(ROOTS),
            "transfer": draw(st.sampled_from(["no", "1d", "2d"])), "code": draw(st.sampled_from(["CAMB", "CLASS"])), "flat": draw(st.booleans()),
            "model": draw(st.sampled_from(["CPL", "LambdaCDM", "other model"])), "u": draw(background((4, 12))),
            "order": draw(st.permutations(list(FID_PARS))), "have": [draw(st.booleans()) for _ in range(3)], "power": draw(st.booleans()),
            "with_power": draw(st.booleans()), "kind": draw(st.lists(st.tuples(st.booleans(), st.sampled_from(["SteM", "Analytic"]), nice(-3, 3, 7)), min_size=10, max_size=10)),
            "reuse": draw(st.booleans())}


def make_power(case):
    p = PowerSpectrum()
    p.boltzmann_code = case["code"]
    nz, nk, s = case["nz"], case["nk"], case["seed"]
    p.z_grid, p.k_grid = arr(s, nz, special=case["special"]), arr(s + 1, nk, special=case["special"])
    p.lin_p_mm_z_k, p.nonlin_p_mm_z_k = arr(s + 2, nz, nk, special=case["special"]), arr(s + 3, nz, nk, special=case["special"])
    if case["transfer"] != "no":
        p.transfer_function = arr(s + 4, *((nk,) if case["transfer"] == "1d" else (nz, nk)), special=case["special"])
    return p


def same_power(got, p, what="power spectrum"):
    eq(got.boltzmann_code, p.boltzmann_code, f"{what}: Boltzmann code")
    for a in ("z_grid", "k_grid", "lin_p_mm_z_k", "nonlin_p_mm_z_k", "transfer_function"):
        if getattr(p, a) is None:
            check(getattr(got, a) is None, f"{what}: {a} appeared")
        else:
            bits(getattr(got, a), getattr(p, a), f"{what}: {a}")


@CHECK.prop(cosmo_case(), quick=120, thorough=2500, rule="several redshifts and wave-numbers")
def power_spectrum(case, ctx):
    f = ctx.tmp() / "p.h5"
    p = make_power(case)
    ctx.nontrivial(case["nz"] > 1 and case["nk"] > 1)
    ctx.label("root " + str(case["root"] != "/"), "transfer " + case["transfer"], "special" if case["special"] else "regular")
    p.saveToHDF5(f, case["root"])
    same_power(PowerSpectrum.fromHDF5(f, case["root"]), p)
    q = PowerSpectrum()
    q.loadFromHDF5(f, case["root"])
    same_power(q, p)
    if not case["special"]:
        check(q == p, "the reloaded power spectrum equals the saved one")


def same_param(a, b, name):
    for k in ("name", "fiducial", "current_value", "kind", "is_free_parameter", "probe", "derivative_method", "stem_factor"):
        if hasattr(b, k):
            eq(getattr(a, k), getattr(b, k), f"parameter {name}: {k}")


@CHECK.prop(cosmo_case(), quick=80, thorough=2500, rule="evaluated cosmology with at least one optional array missing or a power spectrum")
def cosmology(case, ctx):
    f = ctx.tmp() / "c.h5"
    u = case["u"]
    vals = {"Omm": u["Omm"], "w0": u["w0"], "wa": u["wa"], "h": u["h"], "OmDE": 1 - u["Omm"] + (0 if case["flat"] else 0.03)}
    base = cosmo_params(vals)
    pars = {}
    for i, n in enumerate(case["order"]):
        free, method, shift = case["kind"][i]
        q = base[n]
        q.is_free_parameter = free
        q.derivative_method = method
        if not case["flat"] and n not in ("Omm", "OmDE", "h"):
            q.current_value = q.fiducial + 0.01 * shift
        pars[n] = q
    z = np.linspace(u["zmin"], u["zmin"] + u["dz"], u["nz"])
    c = Cosmology(params=pars, flat=case["flat"], z_grid=z, model_name=case["model"])
    E, r, D = arr(case["seed"], len(z)), arr(case["seed"] + 1, len(z)), arr(case["seed"] + 2, len(z))
    if case["have"][0]:
        c.dimensionless_hubble_array = E
    if case["have"][1]:
        c.dimensionless_comoving_distance_array = r
    if case["have"][2]:
        c.growth_factor_z = D
    if case["power"]:
        c.power_spectrum = make_power(case)
    ctx.nontrivial(case["power"] or not all(case["have"]))
    ctx.label("flat" if case["flat"] else "curved", "root " + str(case["root"] != "/"))
    c.saveToHDF5(f, case["root"], save_power_spectrum=case["power"] and case["with_power"])
    stored = case["power"] and case["with_power"]

    def verify(d, what):
        eq(bool(d.is_flat), case["flat"], f"{what}: flatness")
        eq(d.model_name, case["model"], f"{what}: model")
        eq(set(d.params), set(pars), f"{what}: parameters")
        for n in pars:
            same_param(d.params[n], pars[n], n)
            check(d.params[n] == pars[n], f"{what}: parameter {n} differs")
        bits(d.z_grid, z, f"{what}: z grid")
        for a, v, have in (("dimensionless_hubble_array", E, 0), ("dimensionless_comoving_distance_array", r, 1), ("growth_factor_z", D, 2)):
            if case["have"][have]:
                bits(getattr(d, a), v, f"{what}: {a}")
            else:
                check(getattr(d, a) is None, f"{what}: {a} appeared")
        if stored:
            same_power(d.power_spectrum, c.power_spectrum, what)
        else:
            check(d.power_spectrum is None, f"{what}: power spectrum appeared")
        same_bits(d.computeHubbleParameter(z), c.computeHubbleParameter(z), f"{what}: H(z)")
        same_bits(d.computeComovingDistance(z), c.computeComovingDistance(z), f"{what}: r(z)")

    verify(Cosmology.fromHDF5(f, case["root"], load_power_spectrum=stored), "fromHDF5")
    d = Cosmology()
    d.loadFromHDF5(f, case["root"], load_power_spectrum=stored)
    verify(d, "loadFromHDF5")
    if stored:
        check(Cosmology.fromHDF5(f, case["root"], load_power_spectrum=False).power_spectrum is None, "power spectrum loaded although not requested")
        raises(Exception, lambda: Cosmology.fromHDF5(f, "absent" if case["root"] == "/" else "/"), "load from a root which holds no cosmology")


# ---------------------------------------------------------------- densities
@st.composite
def density_case(draw):
    n = draw(st.integers(1, 4))
    return {"n": n, "raw": draw(st.booleans()), "seed": draw(SEED_), "npts": draw(st.integers(5, 12)), "probe": draw(st.sampled_from(PROBES)), "root": draw(ROOTS),
            "evaluated": draw(st.booleans()), "counts": draw(st.booleans()), "z": draw(st.lists(nice(0, 1, 40), min_size=1, max_size=4))}


def make_density(case):
    d = RedshiftDensity(probe=case["probe"])
    d.has_niz_from_input = not case["raw"]
    s = case["seed"]
    d.input_z_domain = 0.1 + np.cumsum(lcg(s, case["npts"], 0.05, 0.3))
    d.z_bin_edges = np.linspace(d.input_z_domain[0], d.input_z_domain[-1], case["n"] + 1)
    d.catalog_f_sky = float(lcg(s + 1, 1, 0.01, 1)[0])
    if case["raw"]:
        d.input_dN_dz_dOmega = lcg(s + 2, case["npts"], 1, 30)
        d.instrument_response = dict(zip(["f_out", "z_b", "sigma_b", "c_b", "z_o", "sigma_o", "c_o"], [float(x) for x in lcg(s + 3, 7, 0.05, 0.3)]))
        d.instrument_response["c_b"] = d.instrument_response["c_o"] = 1.0
    else:
        d.input_n_iz = lcg(s + 4, case["n"] * case["npts"], 0.1, 3).reshape(case["n"], -1)
        d.dN_dOmega_bins = lcg(s + 5, case["n"], 1, 40)
    if case["counts"]:
        d.dN_dOmega_bins = lcg(s + 6, case["n"], 1, 40)
    return d


def same_density(got, d, what="density"):
    eq(got.probe, d.probe, f"{what}: probe")
    eq(bool(got.has_niz_from_input), d.has_niz_from_input, f"{what}: kind")
    eq(float(got.catalog_f_sky), d.catalog_f_sky, f"{what}: sky fraction")
    for a in ("input_z_domain", "z_bin_edges", "dN_dOmega_bins", "input_n_iz", "input_dN_dz_dOmega", "z_grid", "norm_density_iz"):
        if getattr(d, a) is None:
            check(getattr(got, a) is None, f"{what}: {a} appeared")
        else:
            bits(getattr(got, a), getattr(d, a), f"{what}: {a}")
    eq({k: float(v) for k, v in got.instrument_response.items()}, d.instrument_response, f"{what}: instrument response")


@CHECK.prop(density_case(), quick=100, thorough=1500, rule="several bins")
def density_objects(case, ctx):
    f = ctx.tmp() / "d.h5"
    d = make_density(case)
    ctx.nontrivial(case["n"] > 1)
    ctx.label("catalogue" if case["raw"] else "tabulated bins")
    zd = d.input_z_domain
    z = np.unique([zd[0] + t * (zd[-1] - zd[0]) for t in case["z"]])
    if case["evaluated"]:
        d.z_grid, d.norm_density_iz = z, arr(case["seed"] + 7, case["n"], len(z))
    d.saveToHDF5(f, case["root"])
    e = RedshiftDensity.fromHDF5(f, case["root"])
    same_density(e, d)
    e2 = RedshiftDensity()
    e2.loadFromHDF5(f, case["root"])
    same_density(e2, d)
    check(e == d, "the reloaded density equals the saved one")
    if not case["raw"] or case["n"] <= 2:
        for x in (d, e):
            x.setUp()
            x.evaluate(z)
            x.evaluateSurfaceDensity()
        same_bits(e.norm_density_iz, d.norm_density_iz, "n_i(z) of the reloaded density")
        same_bits(e.dN_dOmega_bins, d.dN_dOmega_bins, "counts of the reloaded density")


@CHECK.prop(st.lists(density_case(), min_size=1, max_size=4, unique_by=lambda c: c["probe"]), quick=50, thorough=800, rule="several densities of one file")
def density_files(case, ctx):
    f = ctx.tmp() / "d.h5"
    ds = {c["probe"]: make_density(c) for c in case}
    ctx.nontrivial(len(ds) > 1)
    rds.save_densities_to_file(ds, f)
    got = rds.load_densities_from_file(f)
    eq(set(got), set(ds), "densities of the file")
    for p in ds:
        same_density(got[p], ds[p], p)


# ---------------------------------------------------------------- biases
@st.composite
def bias_case(draw):
    model = draw(st.sampled_from(["piecewise", "constant", "euclid_flagship_photo", "vdn_void", "fiducial_growth_void"]))
    n = draw(st.integers(1, 13))
    return {"model": model, "n": n, "seed": draw(SEED_), "perm": draw(st.permutations(list(range(n)))), "probe": draw(st.sampled_from(list(PREFIX))), "root": draw(ROOTS),
            "u": draw(background((6, 10))), "evaluated": draw(st.booleans()), "start": draw(st.integers(0, 1))}


def make_bias(case):
    edges = np.linspace(0.05, 0.05 + 0.3 * case["n"], case["n"] + 1)
    b = Bias(probe=case["probe"], z_bin_edges=edges)
    b.model_name = case["model"]
    b.additional_parameters = {}
    s, pre = case["seed"], PREFIX[case["probe"]]
    if case["model"] in ("piecewise", "constant"):
        v = lcg(s, case["n"], 0.7, 2.5)
        b.nuisance_parameters = {f"{pre}{case['start'] + i}": float(v[i]) for i in case["perm"]}
    elif case["model"] == "euclid_flagship_photo":
        b.nuisance_parameters = dict(zip("ABCD", [float(x) for x in lcg(s, 4, 0.3, 2)]))
    elif case["model"] == "fiducial_growth_void":
        b.nuisance_parameters = {"bias_const": float(lcg(s, 1, 0.5, 2)[0])}
    else:
        v = lcg(s, 6, 0.5, 2)
        b.nuisance_parameters = {f"bvd{i}": float(x) for i, x in enumerate(lcg(s, 2))}
        b.additional_parameters = {"delta_c": float(v[0]), "n": 3, "name": 1.5}
    return b


@CHECK.prop(bias_case(), quick=120, thorough=2000, rule="several bins or a model with auxiliary parameters")
def bias(case, ctx):
    f = ctx.tmp() / "b.h5"
    b = make_bias(case)
    ctx.nontrivial(case["n"] > 1 or case["model"] not in ("piecewise", "constant"))
    ctx.label(case["model"], ">10 bins" if case["n"] > 10 else "few bins")
    z = np.linspace(0.06, 0.06 + 0.3 * case["n"], 7)
    if case["evaluated"]:
        b.z_grid, b.b_i_z = z, arr(case["seed"] + 3, case["n"], 7)
    b.saveToHDF5(f, case["root"])
    other = Bias()
    other.loadFromHDF5(f, case["root"])
    for got in (Bias.fromHDF5(f, case["root"]), other):
        eq(got.probe, b.probe, "probe")
        eq(got.model_name, b.model_name, "model")
        eq(got.nuisance_parameters, b.nuisance_parameters, "nuisance parameters")
        eq(got.additional_parameters, b.additional_parameters, "additional parameters")
        bits(got.z_bin_edges, b.z_bin_edges, "bin edges")
        if case["evaluated"]:
            bits(got.b_i_z, b.b_i_z, "bias values")
            bits(got.z_grid, z, "grid")
        else:
            check(got.b_i_z is None and got.z_grid is None, "values appeared")
        check(got == b, "the reloaded bias equals the saved one")
    if case["model"] != "vdn_void":
        cosmo = build_background(case["u"], exact=False)
        zz = cosmo.z_grid if case["model"] == "fiducial_growth_void" else z
        got.initBiasModel(fiducial_cosmology=cosmo)
        b.initBiasModel(fiducial_cosmology=cosmo)
        try:
            b.evaluateBias(zz)
        except Exception:  # noqa: BLE001  (parameters the model cannot use: not the subject here)
            return
        got.evaluateBias(zz)
        same_bits(got.b_i_z, b.b_i_z, "values of the reloaded bias")


# ---------------------------------------------------------------- weights, kernels and spectra
@st.composite
def wset(draw, nprobes=(1, 4)):
    probes = draw(st.permutations(PROBES))[:draw(st.integers(*nprobes))]
    return {"probes": [{"probe": p, "n": draw(st.integers(1, 4)), "seed": draw(SEED_), "density": draw(st.booleans()), "bias": draw(st.booleans())} for p in probes],
            "nz": draw(st.integers(1, 8)), "nl": draw(st.integers(1, 5)), "seed": draw(SEED_), "kernel": draw(st.sampled_from([True, True, False])),
            "weights": draw(st.booleans()), "widths": draw(st.booleans()), "special": draw(SPECIAL)}


def make_weight(c, z):
    w = wfs.weight_function_for_probe(c["probe"])
    w.z_grid = z
    w.w_bin_z = arr(c["seed"], c["n"], len(z))
    cc = {**c, "raw": c["seed"] % 2 == 0, "npts": 6, "counts": False}
    if c["density"]:
        w.density = make_density(cc)
    if c["bias"] and c["probe"] != "Lensing":
        w.bias = make_bias({**c, "model": "piecewise", "perm": list(range(c["n"]))[::-1], "start": 0})
    return w


def same_weight(got, w, what):
    eq(got.probe, w.probe, f"{what}: probe")
    check(type(got) is type(w), f"{what}: class")
    bits(got.z_grid, w.z_grid, f"{what}: grid")
    bits(got.w_bin_z, w.w_bin_z, f"{what}: values")
    eq(got.n_bins, w.n_bins, f"{what}: bins")
    if w.density is None:
        check(got.density is None, f"{what}: density appeared")
    else:
        same_density(got.density, w.density, f"{what}: density")
    if w.bias is None:
        check(got.bias is None, f"{what}: bias appeared")
    else:
        eq((got.bias.probe, got.bias.model_name, got.bias.nuisance_parameters), (w.bias.probe, w.bias.model_name, w.bias.nuisance_parameters), f"{what}: bias")
        bits(got.bias.z_bin_edges, w.bias.z_bin_edges, f"{what}: bias edges")


def make_collection(case):
    z = 0.1 + np.arange(case["nz"]) * 0.25 + case["seed"] % 7 / 100
    ws = {c["probe"]: make_weight(c, z) for c in case["probes"]}
    coll = AngularCoefficientsCollector()
    coll.z_grid = z
    if case["kernel"] or case["weights"]:
        coll.weight_dict = dict(ws)
    names = [c["probe"] for c in case["probes"]]
    k = 0
    for i, p1 in enumerate(names):
        for p2 in names[i:]:
            k += 1
            n1, n2 = case["probes"][i]["n"], case["probes"][names.index(p2)]["n"]
            kernel = None
            if case["kernel"]:
                kernel = kfs.KernelFunction(p1, p2, weight1=ws[p1], weight2=ws[p2])
                kernel.z_grid, kernel.k_ijz = z, arr(case["seed"] + 100 * k, n1, n2, case["nz"])
            cl = AngularCoefficient(probe1=p1, probe2=p2, kernel=kernel)
            cl.c_lij = arr(case["seed"] + k, case["nl"], n1, n2, special=case["special"])
            cl.l_bin_centers = 10 + np.cumsum(lcg(case["seed"] + k, case["nl"], 0.1, 9))
            if case["widths"]:
                cl.l_bin_widths = lcg(case["seed"] + 2 * k, case["nl"], 0.1, 9)
            coll.cl_dict[f"{p1}_{p2}"] = cl
    return coll, ws


def same_cl(got, cl, what):
    eq((got.probe1, got.probe2, got.obs_key), (cl.probe1, cl.probe2, f"{cl.probe1}_{cl.probe2}"), f"{what}: probes")
    bits(got.c_lij, cl.c_lij, f"{what}: values")
    bits(got.l_bin_centers, cl.l_bin_centers, f"{what}: multipoles")
    if cl.l_bin_widths is None:
        check(got.l_bin_widths is None, f"{what}: widths appeared")
    else:
        bits(got.l_bin_widths, cl.l_bin_widths, f"{what}: widths")
    if cl.kernel is None:
        check(got.kernel is None and got.weight1 is None and got.weight2 is None, f"{what}: kernel appeared")
    else:
        eq((got.kernel.probe1, got.kernel.probe2), (cl.probe1, cl.probe2), f"{what}: kernel probes")
        bits(got.kernel.k_ijz, cl.kernel.k_ijz, f"{what}: kernel")
        bits(got.kernel.z_grid, cl.kernel.z_grid, f"{what}: kernel grid")
        same_weight(got.weight1, cl.weight1, f"{what}: weight 1")
        same_weight(got.weight2, cl.weight2, f"{what}: weight 2")
        eq((got.n_i, got.n_j), cl.c_lij.shape[1:], f"{what}: bins")


@CHECK.prop(st.tuples(wset((1, 2)), ROOTS).map(lambda t: {**t[0], "root": t[1]}), quick=60, thorough=1000, rule="weight with density or bias")
def weights_and_kernels(case, ctx):
    d = ctx.tmp()
    coll, ws = make_collection({**case, "kernel": True})
    ctx.nontrivial(any(c["density"] or c["bias"] for c in case["probes"]))
    for p, w in ws.items():
        w.saveToHDF5(d / f"{p}.h5", case["root"])
        same_weight(wfs.WeightFunction.fromHDF5(d / f"{p}.h5", case["root"]), w, p)
        v = wfs.weight_function_for_probe(p)
        v.loadFromHDF5(d / f"{p}.h5", case["root"])
        same_weight(v, w, p)
    for key, cl in coll.cl_dict.items():
        cl.kernel.saveToHDF5(d / f"{key}.h5", case["root"])
        k2 = kfs.KernelFunction()
        k2.loadFromHDF5(d / f"{key}.h5", case["root"])
        for k in (kfs.KernelFunction.fromHDF5(d / f"{key}.h5", case["root"]), k2):
            eq((k.probe1, k.probe2), (cl.probe1, cl.probe2), "kernel probes")
            bits(k.k_ijz, cl.kernel.k_ijz, "kernel")
            bits(k.z_grid, cl.kernel.z_grid, "kernel grid")


@CHECK.prop(st.tuples(wset((1, 2)), ROOTS).map(lambda t: {**t[0], "root": t[1]}), quick=60, thorough=1000, rule="cross-spectrum or several bins")
def single_spectrum(case, ctx):
    d = ctx.tmp()
    coll, ws = make_collection(case)
    for key, cl in coll.cl_dict.items():
        ctx.nontrivial(cl.probe1 != cl.probe2 or cl.c_lij.shape[1] > 1)
        f = d / f"{key}.h5"
        cl.saveToHDF5(f, case["root"])
        same_cl(AngularCoefficient.fromHDF5(f, cl.probe1, cl.probe2, case["root"]), cl, key)
        other = AngularCoefficient(probe1=cl.probe1, probe2=cl.probe2)
        other.loadFromHDF5(f, root=case["root"])
        same_cl(other, cl, key)
        if cl.probe1 != cl.probe2:
            raises(Exception, lambda: AngularCoefficient.fromHDF5(f, cl.probe2, cl.probe2, case["root"]), "load a spectrum the file does not hold")


@CHECK.prop(st.lists(st.tuples(wset(), st.sampled_from(["/", "a", "b", "c/d", "c/e"])), min_size=1, max_size=3, unique_by=lambda t: t[1]),
            quick=40, thorough=1000, rule="several probes or several collections in one file")
def collections(case, ctx):
    f = ctx.tmp() / "cl.h5"
    made = []
    for c, root in case:
        coll, ws = make_collection(c)
        coll.saveToHDF5(f, root)
        made.append((root, coll, ws, c))
    ctx.nontrivial(len(case) > 1 or len(case[0][0]["probes"]) > 1)
    ctx.label(f"{len(case)} collections")
    for root, coll, ws, c in made:
        for how in ("from", "load"):
            if how == "from":
                got = AngularCoefficientsCollector.fromHDF5(f, root)
            else:
                got = AngularCoefficientsCollector()
                got.loadFromHDF5(f, root)
            what = f"collection at {root}"
            eq(set(got.cl_dict), set(coll.cl_dict), f"{what}: spectra")
            bits(got.z_grid, coll.z_grid, f"{what}: grid")
            for key, cl in coll.cl_dict.items():
                same_cl(got.cl_dict[key], cl, f"{what}, {key}")
                check(got[key] is got.cl_dict[key], "lookup by name")
            eq(set(got.weight_dict), set(coll.weight_dict), f"{what}: weights")
            for p in coll.weight_dict:
                same_weight(got.weight_dict[p], ws[p], f"{what}: weight {p}")
            if not c["special"] and c["widths"]:
                check(got == coll, f"{what}: equality")
    # a reloaded collection can be stored again
    root, coll, ws, c = made[-1]
    f2 = f.with_name("again.h5")
    AngularCoefficientsCollector.fromHDF5(f, root).saveToHDF5(f2, "again")
    got = AngularCoefficientsCollector.fromHDF5(f2, "again")
    eq(set(got.cl_dict), set(coll.cl_dict), "stored again: spectra")
    for key, cl in coll.cl_dict.items():
        same_cl(got.cl_dict[key], cl, f"stored again: {key}")


# ---------------------------------------------------------------- noisy spectra
@st.composite
def delta_case(draw):
    out = []
    for i in range(draw(st.integers(1, 4))):
        out.append({"n1": draw(st.integers(1, 4)), "n2": draw(st.integers(1, 4)), "nl": draw(st.integers(1, 4)), "seed": draw(SEED_),
                    "p": draw(st.lists(st.sampled_from(PROBES), min_size=2, max_size=2)), "opt": [draw(st.booleans()) for _ in range(5)]})
    return {"items": out, "where": [draw(st.sampled_from(["delta", "single", "both"])) for _ in out], "root": draw(ROOTS)}


OPT = ["c_lij", "noise_lij", "l_bin_widths", "inv_delta_c_lij"]


def make_delta(c, name):
    d = DeltaCl(name=name)
    s = c["seed"]
    d.delta_c_lij = arr(s, c["nl"], c["n1"], c["n2"], special=3)
    d.l_bin_centers = lcg(s + 1, c["nl"], 10, 3000)
    vals = [arr(s + 2, c["nl"], c["n1"], c["n2"]), arr(s + 3, c["nl"], c["n1"], c["n2"], special=3), lcg(s + 4, c["nl"], 0.1, 10), arr(s + 5, c["nl"], c["n1"], c["n2"])]
    for a, v, have in zip(OPT, vals, c["opt"]):
        if have:
            setattr(d, a, v)
    if c["opt"][4]:
        d.probe_1, d.probe_2 = c["p"]
    return d


def same_delta(got, d, what):
    eq((got.name, got.probe_1, got.probe_2), (d.name, d.probe_1, d.probe_2), f"{what}: name and probes")
    for a in ["delta_c_lij", "l_bin_centers"] + OPT:
        if getattr(d, a) is None:
            check(getattr(got, a) is None, f"{what}: {a} appeared")
        else:
            bits(getattr(got, a), getattr(d, a), f"{what}: {a}")


@CHECK.prop(delta_case(), quick=80, thorough=1500, rule="at least two blocks")
def noisy_spectra(case, ctx):
    d = ctx.tmp()
    coll = DeltaClCollection()
    ctx.nontrivial(len(case["items"]) > 1)
    for i, (c, where) in enumerate(zip(case["items"], case["where"])):
        b = make_delta(c, f"{c['p'][0]}_{c['p'][1]}" if i % 2 else f"block {i}+XC")
        f = d / f"{i}.h5"
        b.saveToHDF5(f, case["root"])
        same_delta(DeltaCl.fromHDF5(f, b.name, case["root"]), b, b.name)
        other = DeltaCl(name=b.name)
        other.loadFromHDF5(f, case["root"])
        same_delta(other, b, b.name)
        if where != "single":
            coll[f"{b.name} {i}"] = b
        if where != "delta":
            coll.single_blocks[f"{b.name} {i}"] = b
    f = d / "all.h5"
    if not len(coll) or not coll.single_blocks:
        return
    coll.saveToHDF5(f, case["root"])
    got2 = DeltaClCollection()
    got2.loadFromHDF5(f, case["root"])
    for got in (DeltaClCollection.fromHDF5(f, case["root"]), got2):
        eq(set(got.keys()), set(coll.keys()), "blocks")
        eq(set(got.single_blocks), set(coll.single_blocks), "single blocks")
        for k in coll.keys():
            same_delta(got[k], coll[k], k)
        for k in coll.single_blocks:
            same_delta(got.single_blocks[k], coll.single_blocks[k], k)


# ---------------------------------------------------------------- derivatives
@st.composite
def der_case(draw):
    names = draw(st.lists(st.sampled_from(["Omm", "h", "w0", "bgph0", "bgph12", "aIA", "bgsp3"]), min_size=1, max_size=4, unique=True))
    probes = draw(st.permutations(PROBES))[:draw(st.integers(1, 4))]
    return {"names": names, "probes": list(probes), "n": draw(st.lists(st.integers(1, 4), min_size=4, max_size=4)), "nl": draw(st.integers(1, 4)), "seed": draw(SEED_), "special": draw(SPECIAL)}


@CHECK.prop(der_case(), quick=80, thorough=1500, rule="several parameters or probes")
def derivatives(case, ctx):
    tmp = ctx.tmp()
    ctx.nontrivial(len(case["names"]) > 1 or len(case["probes"]) > 1)
    want = {}
    for a, name in enumerate(case["names"]):
        coll = ClDerivativeCollector(dvar=name)
        want[name] = {}
        k = 0
        for i, p1 in enumerate(case["probes"]):
            for j, p2 in enumerate(case["probes"][i:], i):
                k += 1
                der = ClDerivative(p1=p1, p2=p2)
                der.l_bin_centers = lcg(case["seed"] + k, case["nl"], 10, 3000)
                der.dc_lij = arr(case["seed"] + 50 * a + k, case["nl"], case["n"][i], case["n"][j], special=case["special"])
                coll.dcl_dict[f"{p1}_{p2}"] = der
                want[name][f"{p1}_{p2}"] = der
        folder = tmp / name
        folder.mkdir()
        coll.writeToFile(folder / f"cl_derivatives_{name}.h5")
        got = ClDerivativeCollector.fromHDF5(folder / f"cl_derivatives_{name}.h5", dvar=name)
        eq(got.dvar, name, "parameter")
        eq(set(got.dcl_dict), set(want[name]), "spectra")
        for key, der in want[name].items():
            eq((got[key].probe1, got[key].probe2, got[key].probe_key), (der.probe1, der.probe2, key), "probes")
            bits(got[key].dc_lij, der.dc_lij, f"derivative of {key}")
            bits(got[key].l_bin_centers, der.l_bin_centers, f"multipoles of {key}")
            same_bits(got.ell_dict[key], der.l_bin_centers, "multipole dictionary")
            same_bits(got.dc_lij_array_dict[key], der.dc_lij, "derivative dictionary")
        # loading replaces what the collector held before
        got.dcl_dict["Void_Void"] = ClDerivative(p1="Void", p2="Void")
        got.loadFromFile(folder / f"cl_derivatives_{name}.h5")
        eq(set(got.dcl_dict), set(want[name]), "spectra after loading again")
    every = collect_cl_derivatives(tmp)
    eq(set(every), set(case["names"]), "parameters of the folder")
    for name in want:
        eq(set(every[name]), set(want[name]), f"spectra of {name}")
        for key, der in want[name].items():
            bits(every[name][key], der.dc_lij, f"derivative of {key} with respect to {name}")

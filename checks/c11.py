"""C11: analytic bias derivatives."""
from coslib import *
from seyfert.config.forecast_config import ForecastConfig
from seyfert.cosmology.c_ells import AngularCoefficient
from seyfert.cosmology.kernel_functions import KernelFunction
from seyfert.cosmology.parameter import PhysicalParametersCollection
from seyfert.cosmology.weight_functions import weight_function_for_probe
from seyfert.derivatives.cl_derivative import ClDerivative
from seyfert.derivatives.differentiator import AnalyticClDifferentiator
from seyfert.utils.workspace import WorkSpace

CHECK = Check("C11", ["Every bias bin holds at least seven redshifts and its edges lie between two of them; densities and the other weights are smooth.",
                      "For the piecewise bias the code integrates the bin with Simpson's rule between its first and last redshift, so the two "
                      "outer half cells are added before comparing, to 3% of the absolute integral.",
                      "Parameter names are numbered from zero, as in the shipped bias files."])
GAL = PROBES[:2]
PAIRS = [(a, b) for a in PROBES for b in PROBES if a in GAL or b in GAL]


@st.composite
def analytic_case(draw):
    p1, p2 = draw(st.sampled_from(PAIRS + [(p, p) for p in GAL] * 2))
    model = draw(st.sampled_from(["piecewise", "constant"]))
    n = draw(st.sampled_from([3, 11, 2, 12, 13, 4, 1]))
    k = draw(st.sampled_from(["last", "any", "first"]))
    k = n - 1 if k == "last" else 0 if k == "first" else draw(st.integers(0, n - 1))
    return {"p": [p1, p2], "model": model, "n": n, "other": draw(st.integers(1, 3)), "seed": draw(st.integers(0, 10 ** 6)), "wide": draw(st.booleans()),
            "par": draw(st.sampled_from(sorted({p for p in (p1, p2) if p in GAL}) * 4 + GAL)), "k": k, "u": draw(background((4, 4), zmin=0.6)),
            "pw": draw(power(2)), "offdiag": draw(st.booleans()), "stored": draw(st.integers(0, 2)) == 0, "lmax": draw(st.integers(12, 14)),
            "swap_order": draw(st.booleans())}


def smooth(seed, n, z):
    a = lcg(seed, 3 * n, 0, 1).reshape(n, 3)
    t = (z - z[0]) / (z[-1] - z[0])
    return np.array([0.4 + a[i, 0] + 0.3 * np.sin(2.5 * (a[i, 1] + 0.4) * t + 6 * a[i, 2]) for i in range(n)])


def galaxy(case, probe, cosmo, tmp, edges, values, n):
    z = cosmo.z_grid
    dens = RedshiftDensity(probe=probe)
    dens.has_niz_from_input = True
    dens.catalog_f_sky = 0.35
    dens.dN_dOmega_bins = np.ones(n)
    dens.z_bin_edges = edges
    dens.input_z_domain = z
    dens.input_n_iz = smooth(case["seed"] + len(probe), n, z)
    dens.setUp()
    dens.evaluate(z)
    names = [f"{PREFIX[probe]}{i}" for i in range(n)]
    f = tmp / f"{probe}_bias.h5"
    if not f.exists():
        bias_file(f, probe, case["model"], edges, dict(zip(names, [1.0] * n)))
    w = weight_function_for_probe(probe, probe_config=probe_config(bias_init_file=f), nuisance_params=nuisance({k: (v, v) for k, v in zip(names, values)}, probe),
                                  cosmology=cosmo, fiducial_cosmology=cosmo)
    w.density = dens
    w.evaluateOverRedshiftGrid(z)
    return w


@CHECK.prop(analytic_case(), quick=300, thorough=4000, rule="the spectrum depends on the parameter and has several bins")
def analytic_equals_displaced(case, ctx):
    tmp = ctx.tmp()
    p1, p2 = case["p"]
    gals = [p for p in PROBES[:2] if p in (p1, p2)]
    nbig = case["n"]
    nb = {p: case["other"] for p in PROBES}
    nb[case["par"]] = nbig
    per = 8 + case["seed"] % 3
    u = dict(case["u"], dz=min(case["u"]["dz"], 1.5), nz=per * nbig + 1 + (14 if case["wide"] else 0))
    cosmo = build_background(u, exact=False)
    z = cosmo.z_grid
    cosmo.dimensionless_hubble_array = (1 + z) ** 1.4
    cosmo.dimensionless_comoving_distance_array = np.log(1 + z) * 0.9
    set_power(cosmo, case["pw"])
    dz = z[1] - z[0]
    first = 7 if case["wide"] else 0

    def edges(n):
        m = per * nbig // n
        e = z[first] + dz * (np.arange(n + 1) * m + 0.4)
        return e if case["wide"] else np.concatenate([[z[0]], e[1:-1], [z[-1]]])
    values = {p: lcg(case["seed"] + 9 + len(p), nb[p], 0.7, 2.4) for p in gals}
    fc = tmp / "forecast.json"
    sp = {"compute_gcsp_cl_offdiag": case["offdiag"]}
    both = [p1] if p1 == p2 else [p1, p2]
    fc.write_text(json.dumps(forecast_json({p: {"l_max": case["lmax"], **({"specific_settings": sp} if p.startswith("Spec") else {})} for p in both})))
    for sec in json.loads(fc.read_text())["probes"].values():  # named by the configuration, not all are read here
        for k in ("density_file", "bias_file"):
            if k in sec and not (tmp / sec[k]).exists():
                (tmp / sec[k]).touch()
    conf = ForecastConfig(input_file=fc, input_data_dir=tmp)
    acfg = angular_config(cl="newton-cotes_1", kx=case["pw"]["kx"], ky=case["pw"]["ky"])

    def spectrum(vals):
        ws = {p: galaxy(case, p, cosmo, tmp, edges(nb[p]), vals[p], nb[p]) if p in gals
              else weight(p, smooth(case["seed"] + 100, nb[p], z) * 1e-4, z) for p in both}
        kern = KernelFunction(weight1=ws[p1], weight2=ws[p2], cosmology=cosmo)
        cl = AngularCoefficient(kernel=kern, forecast_config=conf, angular_config=acfg)
        cl.setUp()
        cl.evaluateAngularCorrelation()
        return cl
    par, k = case["par"], case["k"] % nbig
    name = f"{PREFIX[par]}{k}"
    cl = spectrum(values)
    depends = par in (p1, p2)
    fid = float(values[par][k]) if depends else 1.3
    # the derivative is at the fiducial, wherever the parameter was left
    moved = {} if case["stored"] or case["seed"] % 2 else {"current_value": 1.7 * fid}
    P = PhysicalParameter(name=name, fiducial=fid, **moved, is_free_parameter=True, kind=PhysicalParameter.NUISANCE_PAR_STRING, probe=par, derivative_method="Analytic")
    if case["stored"]:
        ws = WorkSpace(tmp / "run")
        d = ws.cl_dir / "dvar_central_step_0"
        d.mkdir(parents=True)
        (ws.pmm_dir / "dvar_central_step_0").mkdir(parents=True)
        cl.saveToHDF5(d / "cls.h5", root="cls")
        cosmo.saveToHDF5(ws.pmm_dir / "dvar_central_step_0" / "p_mm.h5")
        acfg.writeToJSON(ws.run_dir / "angular.json")
        PhysicalParametersCollection(data_dict={name: P}, base_stem_disps=[0.1], is_universe_flat=False).writeJSON(ws.run_dir / "params.json")
        (ws.run_dir / "input_files_dict.json").write_text(json.dumps({"params": "params.json", "Angular": "angular.json", "forecast": "../forecast.json",
                                                                      "input_data_dir": str(tmp)}))
        der = ClDerivative(p1=p1, p2=p2, param=P, workspace=ws)
        der.evaluate()
        got = der.dc_lij
        same_bits(der.l_bin_centers, cl.l_bin_centers, "multipoles of the derivative")
    else:
        diff = AnalyticClDifferentiator(probe1=p1, probe2=p2, param=P)
        diff.fiducial_cl = cl
        got = diff.computeDerivative()
    C = np.array(cl.c_lij)
    eq(got.shape, C.shape, "shape")
    ctx.label(case["model"], "stored" if case["stored"] else "in memory", "depends" if depends else "independent", f"bin {k}" if k > 9 else "bin < 10")
    if not depends:
        check(not np.any(got), "derivative of a spectrum which does not involve the probe")
        return
    ctx.nontrivial(max(C.shape[1:]) > 1)
    eps = 0.2
    up, dn = ({p: np.array(v, dtype=float) for p, v in values.items()} for _ in range(2))
    up[par][k] += eps
    dn[par][k] -= eps
    want = (np.array(spectrum(up).c_lij) - np.array(spectrum(dn).c_lij)) / (2 * eps)
    scale = np.max(np.abs(C)) / fid
    if p1 == p2:
        close(np.transpose(got, (0, 2, 1)), got, "symmetric in the bins", rtol=1e-9, atol=1e-12 * scale)
    if case["model"] == "constant":
        close(got, want, f"derivative with respect to {name}", rtol=1e-7, atol=1e-9 * scale)
        for i in range(C.shape[1]):
            for j in range(C.shape[2]):
                if not ((p1 == par and i == k) or (p2 == par and j == k)):
                    check(not np.any(got[:, i, j]), f"bins {i},{j} do not involve {name}")
        return
    e = edges(nbig)
    lo, hi = (e[k] if k else -1), (e[k + 1] if k < nbig - 1 else 99)
    idx = np.nonzero((z >= lo) & (z <= hi))[0]
    legs = (p1 == par) + (p2 == par)
    for i in range(C.shape[1]):
        for j in range(C.shape[2]):
            I = cl.limber_power_spectrum_l_z * np.asarray(cl.weight1.w_bin_z)[i] * np.asarray(cl.weight2.w_bin_z)[j] * C_KM_S / (cosmo.H_z * cosmo.r_z ** 2)
            if not np.any(C[:, i, j]):
                check(not np.any(got[:, i, j]), "a spectrum which is identically zero has zero derivative")
                continue
            half = dz / 2 * (I[:, idx[0]] * (idx[0] > 0) + I[:, idx[-1]] * (idx[-1] < len(z) - 1))
            tol = 0.03 * legs / fid * np.sum(np.abs(I[:, idx]), axis=1) * dz
            for l in range(C.shape[0]):
                close(got[l, i, j] + (legs / fid * half)[l], want[l, i, j], f"derivative of bins {i},{j} with respect to {name}", rtol=0, atol=tol[l])


@st.composite
def nodes_case(draw):
    p1, p2 = draw(st.sampled_from(PAIRS))
    return {"p": [p1, p2], "model": "piecewise", "n": draw(st.integers(1, 4)), "other": draw(st.integers(1, 3)), "seed": draw(st.integers(0, 10 ** 6)),
            "u": draw(background((4, 4), zmin=0.6)), "pw": draw(power(2)), "per": [2 * draw(st.integers(2, 5)) for _ in range(4)]}


@CHECK.prop(nodes_case(), quick=60, thorough=1500, rule="several bias bins")
def homogeneous_in_the_bias(case, ctx):
    """bias bins that share redshifts of the grid as edges cover the whole integral once: sum of b_k dC/db_k is C for each leg"""
    tmp = ctx.tmp()
    p1, p2 = case["p"]
    n = case["n"]
    per = case["per"][:n]
    cosmo = build_background(dict(case["u"], dz=min(case["u"]["dz"], 1.5), nz=sum(per) + 1), exact=False)
    z = cosmo.z_grid
    cosmo.dimensionless_hubble_array = (1 + z) ** 1.4
    cosmo.dimensionless_comoving_distance_array = np.log(1 + z) * 0.9
    set_power(cosmo, case["pw"])
    edges = z[np.concatenate([[0], np.cumsum(per)])]
    par = p1 if p1 in GAL else p2
    nb = {p: case["other"] for p in PROBES}
    nb[par] = n
    vals = lcg(case["seed"] + 9, n, 0.7, 2.4)
    conf = forecast_config({p: ([12.5, 20.0], [1.0, 1.0]) for p in sorted({p1, p2})}, settings={"SpectroscopicGalaxy": {"compute_gcsp_cl_offdiag": True},
                                                                                                "Void": {"void_kcut_invMpc": 5.0, "void_kcut_width_invMpc": 0.5}})
    ws = {p: galaxy(case, p, cosmo, tmp, edges, vals, n) if p == par else weight(p, smooth(case["seed"] + 100, nb[p], z) * 1e-4, z) for p in {p1, p2}}
    cl = AngularCoefficient(kernel=KernelFunction(weight1=ws[p1], weight2=ws[p2], cosmology=cosmo), forecast_config=conf,
                            angular_config=angular_config(cl="simpson", kx=case["pw"]["kx"], ky=case["pw"]["ky"]))
    cl.setUp()
    cl.evaluateAngularCorrelation()
    C = np.array(cl.c_lij)
    ctx.nontrivial(n > 1)
    tot = 0
    for k in range(n):
        diff = AnalyticClDifferentiator(probe1=p1, probe2=p2, param=PhysicalParameter(
            name=f"{PREFIX[par]}{k}", fiducial=float(vals[k]), is_free_parameter=True, kind=PhysicalParameter.NUISANCE_PAR_STRING, probe=par, derivative_method="Analytic"))
        diff.fiducial_cl = cl
        tot = tot + vals[k] * np.array(diff.computeDerivative())
    legs = (p1 == par) + (p2 == par)
    close(tot, legs * C, "sum over the bias bins of b dC/db", rtol=1e-9, atol=1e-11 * np.max(np.abs(C)))


@CHECK.prop(st.fixed_dictionaries({"p": st.sampled_from([("Lensing", "Lensing"), ("PhotometricGalaxy", "Lensing")]), "name": st.sampled_from(["aIA", "bgsp1", "w0", "voidbias0"]),
                                   "seed": st.integers(0, 1000)}), quick=20, thorough=200, rule="always")
def other_parameters(case, ctx):
    """never an analytic derivative of a parameter which is not a galaxy bias"""
    ctx.nontrivial()
    z = np.linspace(0.1, 1, 5)
    p1, p2 = case["p"]
    k = KernelFunction(weight1=weight(p1, np.ones((2, 5)), z), weight2=weight(p2, np.ones((2, 5)), z))
    cl = AngularCoefficient(probe1=p1, probe2=p2, kernel=k)
    cl.c_lij = lcg(case["seed"], 12, 1, 2).reshape(3, 2, 2)
    owner = {"aIA": "Lensing", "bgsp1": "SpectroscopicGalaxy", "voidbias0": "Void"}.get(case["name"])
    P = PhysicalParameter(name=case["name"], fiducial=0.5, is_free_parameter=True, probe=owner,
                          kind=PhysicalParameter.NUISANCE_PAR_STRING if owner else PhysicalParameter.COSMO_PAR_STRING)
    d = AnalyticClDifferentiator(probe1=p1, probe2=p2, param=P)
    d.fiducial_cl = cl
    if owner and owner not in (p1, p2):
        check(not np.any(d.computeDerivative()), "nuisance parameter of another probe")
    else:
        raises(NotImplementedError, d.computeDerivative, "analytic derivative of a parameter which is not a galaxy bias")

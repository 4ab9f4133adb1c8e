"""C08: symmetry, bilinearity and independence of the angular spectra."""
from coslib import *
import copy
from scipy.interpolate import CubicSpline, RectBivariateSpline
from seyfert.cosmology.c_ells import AngularCoefficient, AngularCoefficientsCollector, ClError
from seyfert.cosmology.kernel_functions import KernelFunction
from seyfert.cosmology.parameter import PhysicalParametersCollection

CHECK = Check("C08", ["Multipoles common to two probes have the same widths in both (as in every shipped survey configuration).",
                      "Relations are checked with the linear quadrature rules (Simpson, Newton-Cotes), to 1e-9 of the largest entry."])
METHODS = ["simpson", "newton-cotes_1", "newton-cotes_4", "newton-cotes_6"]
SETTINGS = {"Void": {"void_kcut_invMpc": 0.4, "void_kcut_width_invMpc": 0.2}, "Lensing": {"include_IA": True}}


@st.composite
def spectra_case(draw):
    p1 = draw(st.sampled_from(PROBES))
    p2 = draw(st.sampled_from([p1, p1] + PROBES))
    n1 = draw(st.integers(1, 4))
    n2 = n1 if p1 == p2 else draw(st.integers(1, 4))
    n = draw(st.integers(2, 6))
    return {"u": draw(background((6, 14))), "p": [p1, p2], "n": [n1, n2], "seed": draw(st.integers(0, 10 ** 6)), "pw": draw(power()),
            "l": sorted(draw(st.lists(st.integers(2, 3000), min_size=n, max_size=n, unique=True))), "method": draw(st.sampled_from(METHODS)),
            "subset": draw(st.integers(0, 10 ** 4)), "factor": draw(nice(-3, 5, 80)), "bin": draw(st.integers(0, 9)), "pfac": draw(nice(0.1, 4, 39)),
            "offdiag": draw(st.booleans())}


def spectra(case, swap=False, l=None, f1=None, bins=None, pfac=1.0, order=None):
    cosmo = build_background(case["u"], exact=False)
    z = cosmo.z_grid
    set_power(cosmo, case["pw"])
    cosmo.power_spectrum.nonlin_p_mm_z_k = cosmo.power_spectrum.nonlin_p_mm_z_k * pfac
    ws = [lcg(case["seed"] + 17 * k, n * len(z), 0.1, 3).reshape(n, len(z)) for k, n in enumerate(case["n"])]
    if f1 is not None:
        ws[0][f1[0] % len(ws[0])] *= f1[1]
    if case["p"][0] == case["p"][1]:
        ws[1] = ws[0]
    if bins is not None:
        ws = [w[b] for w, b in zip(ws, bins)]
    l = np.array(case["l"] if l is None else l, dtype=float)
    fc = forecast_config({p: (l, l * 0.1 + 1) for p in case["p"]},
                         {**SETTINGS, "SpectroscopicGalaxy": {"compute_gcsp_cl_offdiag": case["offdiag"]}})
    idx = [1, 0] if swap else [0, 1]
    kern = KernelFunction(weight1=weight(case["p"][idx[0]], ws[idx[0]], z), weight2=weight(case["p"][idx[1]], ws[idx[1]], z), cosmology=cosmo)
    cl = AngularCoefficient(kernel=kern, forecast_config=fc, angular_config=angular_config(cl=case["method"], kx=case["pw"]["kx"], ky=case["pw"]["ky"]))
    cl.setUp()
    cl.evaluateAngularCorrelation()
    return cl


@CHECK.prop(spectra_case(), quick=200, thorough=5000, rule="several bins")
def metamorphic_relations(case, ctx):
    auto = case["p"][0] == case["p"][1]
    base = spectra(case)
    C = np.array(base.c_lij)
    tol = 1e-9
    ctx.nontrivial(max(case["n"]) > 1)
    ctx.label("auto" if auto else "cross", case["method"])
    eq(base.obs_key, "_".join(case["p"]), "key")
    eq(bool(base.is_auto_correlation), auto, "auto-correlation flag")
    if auto:
        close_scaled(np.transpose(C, (0, 2, 1)), C, "auto spectra are symmetric in the bins", tol=tol)
        check(np.array_equal(np.transpose(C, (0, 2, 1)), C), "auto spectra are exactly symmetric")
    else:
        S = spectra(case, swap=True)
        close_scaled(np.transpose(np.array(S.c_lij), (0, 2, 1)), C, "swapping the probes transposes", tol=tol)
        eq(S.obs_key, "_".join(case["p"][::-1]), "key of swapped probes")
    # multipole by multipole
    keep = [a for a in range(len(case["l"])) if (case["subset"] >> a) & 1] or [0]
    sub = spectra(case, l=[case["l"][a] for a in keep])
    close_scaled(sub.c_lij, C[keep], "subset of multipoles", tol=tol)
    # bin by bin
    b1 = [a for a in range(case["n"][0]) if (case["subset"] >> (a + 3)) & 1] or [0]
    b2 = b1 if auto else [a for a in range(case["n"][1]) if (case["subset"] >> (a + 7)) & 1] or [0]
    close_scaled(spectra(case, bins=[b1, b2]).c_lij, C[:, b1][:, :, b2], "subset of bins", tol=tol)
    # bilinear in the weights
    i, f = case["bin"] % case["n"][0], case["factor"]
    want = C.copy()
    want[:, i, :] *= f
    if auto:
        want[:, :, i] *= f
    close(spectra(case, f1=[i, f]).c_lij, want, "scaling one weight", rtol=tol, atol=tol * float(np.max(np.abs(C))) * max(1, f * f))
    # linear in the matter spectrum
    close_scaled(spectra(case, pfac=case["pfac"]).c_lij, case["pfac"] * C, "scaling the matter spectrum", tol=1e-7)
    if case["p"][0] in (base.probe1,):
        check(base.getWeightFunction(case["p"][0]) is base.weight1, "weight of the first probe")
        check(base.getWeightFunction(case["p"][1]) is (base.weight1 if auto else base.weight2), "weight of the second probe")
    raises(KeyError, lambda: base.getWeightFunction("Nothing"), "weight of an absent probe")
    # doing it again does not change anything
    base.evaluateAngularCorrelation()
    same_bits(base.c_lij, C, "evaluating twice")


# -------------------------------------------------------------- whole collection
@st.composite
def survey(draw):
    probes = draw(st.permutations(PROBES[:3]))[:draw(st.integers(1, 3))]
    n = draw(st.integers(1, 4))
    base = sorted(draw(st.lists(st.integers(2, 2000), min_size=n, max_size=n, unique=True)))
    extra = draw(st.lists(st.integers(2001, 2500), max_size=2, unique=True))
    return {"u": draw(background((5, 10))), "pw": draw(power()), "probes": list(probes),
            "bins": {p: draw(st.integers(1, 3)) for p in PROBES}, "seed": draw(st.integers(0, 10 ** 6)), "l": base, "extra": sorted(extra),
            "who": draw(st.sampled_from(PROBES[:3])), "model": draw(st.sampled_from(["piecewise", "constant"])),
            "method": draw(st.sampled_from(METHODS)), "ia": draw(st.booleans()), "offdiag": draw(st.booleans())}


LONG2SHORT = {"PhotometricGalaxy": "ph", "SpectroscopicGalaxy": "sp", "Lensing": "wl", "Void": "vd"}


def collect(case, probes, tmp):
    cosmo = build_background(case["u"], exact=False)
    z = cosmo.z_grid
    set_power(cosmo, case["pw"])
    pars, densities, ells = PhysicalParametersCollection(), {}, {}
    settings = {"Lensing": {"include_IA": case["ia"]}, "SpectroscopicGalaxy": {"compute_gcsp_cl_offdiag": case["offdiag"]}}
    for p in probes:
        l = np.array(case["l"] + (case["extra"] if p == case["who"] else []), dtype=float)
        ells[p] = (l, l * 0.1 + 1)
    fc = forecast_config(ells, settings)
    for p in probes:
        n = case["bins"][p]
        k = PROBES.index(p)
        densities[p] = build_density({"n": n, "seed": case["seed"] + k, "npts": 8, "sparse": False}, z, p)
        if p == "Lensing":
            vals = {"aIA": (1.7, 1.2), "cIA": (0.0134, 0.0134), "etaIA": (-0.4, -0.4), "betaIA": (2.1, 1.1)}
        else:
            bs = lcg(case["seed"] + 7 + k, 2 * n, 0.8, 2)
            vals = {f"{PREFIX[p]}{i}": (bs[i], bs[n + i]) for i in range(n)}
            fc.probe_configs[p].bias_init_file = bias_file(tmp / f"{p}.h5", p, case["model"], densities[p].z_bin_edges,
                                                           {a: b[0] for a, b in vals.items()})
        for name, par in nuisance(vals, p).items():
            pars[name] = par
    coll = AngularCoefficientsCollector(phys_params=pars, cosmology=cosmo, fiducial_cosmology=cosmo, forecast_config=fc,
                                        angular_config=angular_config(cl=case["method"], kx=case["pw"]["kx"], ky=case["pw"]["ky"]))
    raises(ClError, coll.evaluateAngularCoefficients, "evaluation before set-up")
    coll.setUp(densities)
    coll.evaluateAngularCoefficients()
    return coll


@CHECK.prop(survey(), quick=60, thorough=1500, rule="at least two probes")
def collections_of_spectra(case, ctx):
    import itertools
    probes = case["probes"]
    tmp = ctx.tmp()
    ctx.nontrivial(len(probes) > 1)
    ctx.label(f"{len(probes)} probes")
    a, b, c = tmp / "a", tmp / "b", tmp / "c"
    for d in (a, b, c):
        d.mkdir()
    full = collect(case, probes, a)
    keys = ["_".join(x) for x in itertools.combinations_with_replacement(probes, 2)]
    eq(list(full.cl_dict), keys, "one spectrum for each pair of probes")
    eq(full.probes, probes, "probes")
    eq(full.short_keys, [LONG2SHORT[k.split("_")[0]] + LONG2SHORT[k.split("_")[1]] for k in keys], "short keys")
    rev = collect(case, probes[::-1], b)
    tol = 1e-9
    for k in keys:
        p1, p2 = k.split("_")
        cl = full[k]
        eq((cl.probe1, cl.probe2), (p1, p2), "probes of a spectrum")
        check(full[LONG2SHORT[p1] + LONG2SHORT[p2]] is cl, "short and long names find the same spectrum")
        check(cl.weight1 is full.weight_dict[p1] and cl.weight2 is full.weight_dict[p2], "weights shared")
        C = np.array(cl.c_lij)
        l = case["l"] + (case["extra"] if p1 == p2 == case["who"] else [])
        close(cl.l_bin_centers, l, f"multipoles of {k}", rtol=0)
        eq(C.shape, (len(l), case["bins"][p1], case["bins"][p2]), f"shape of {k}")
        R = np.array(rev[k].c_lij) if p1 == p2 else np.transpose(np.array(rev[f"{p2}_{p1}"].c_lij), (0, 2, 1))
        close_scaled(R, C, f"{k}: order of the probes", tol=tol)
    # a subset of the probes gives the same spectra
    sub = probes[:1] if len(probes) < 3 else probes[:2]
    part = collect(case, sub, c)
    for k in part.cl_dict:
        close_scaled(part[k].c_lij, full[k].c_lij, f"{k} alone", tol=tol)
    # independent evaluation of one cross spectrum
    p1, p2 = keys[len(keys) // 2].split("_")
    cl = full["_".join((p1, p2))]
    z = full.z_grid
    cosmo = full.cosmology
    r = C_KM_S / cosmo.H0 * cosmo.r_tilde_z
    H = cosmo.H0 * cosmo.E_z
    w1, w2 = full.weight_dict[p1].w_bin_z, full.weight_dict[p2].w_bin_z
    for a, l in enumerate(cl.l_bin_centers):
        P = eval_power(case["pw"], z, (l + 0.5) / r)
        for i in range(len(w1)):
            for j in range(len(w2)):
                if p1 == p2 == "SpectroscopicGalaxy" and i != j and not case["offdiag"]:
                    continue
                y = P * w1[i] * w2[j] * C_KM_S / (H * r * r)
                close(cl.c_lij[a, i, j], rule_ref(case["method"], y, z), f"{p1} {p2} {i} {j}", rtol=1e-6,
                      atol=1e-6 * float(np.sum(np.abs(y))) * (z[1] - z[0]))

"""C07: kernels, Limber power spectra and angular power spectra equal the Limber integral."""
from coslib import *
from seyfert.cosmology.c_ells import AngularCoefficient, ClError
from seyfert.cosmology.kernel_functions import KernelFunction

CHECK = Check("C07", ["Power spectra are polynomials in (z, log k) up to the spline degree, so interpolation is exact and the oracle is the polynomial.",
                      "Outside the tabulated k range the spectrum is held at its boundary value (spline clamping).",
                      "Integration of generic smooth integrands is not claimed to be accurate, only to follow the selected quadrature rule; the adaptive quad rule (of a piecewise linear function) is compared to 1e-2 and without void cuts."])


@st.composite
def pair(draw):
    p1 = draw(st.sampled_from(PROBES))
    p2 = draw(st.sampled_from([p1] + PROBES))
    n1 = draw(st.integers(1, 4))
    n2 = n1 if p1 == p2 else draw(st.integers(1, 4))
    return {"p": [p1, p2], "n": [n1, n2], "seed": draw(st.integers(0, 10 ** 6)), "zeros": draw(st.booleans())}


def weights(p, z):
    ws = []
    for k, (pr, n) in enumerate(zip(p["p"], p["n"])):
        w = lcg(p["seed"] + 17 * k, n * len(z), -1, 3).reshape(n, len(z))
        if p["zeros"]:
            w = w * (lcg(p["seed"] + 31 * k + 5, w.size, 0, 1) > 0.4).reshape(w.shape)
        ws.append(w)
    if p["p"][0] == p["p"][1]:
        ws[1] = ws[0]
    return ws


def kernel_ref(cosmo, w1, w2):
    H, r = cosmo.H0 * cosmo.E_z, C_KM_S / cosmo.H0 * cosmo.r_tilde_z
    out = np.zeros((len(w1), len(w2), len(H)))
    for i in range(len(w1)):
        for j in range(len(w2)):
            out[i, j] = w1[i] * w2[j] * C_KM_S / (H * r ** 2)
    return out


@CHECK.prop(st.fixed_dictionaries({"u": background((2, 20)), "p": pair(), "given": st.booleans()}), quick=150, thorough=4000,
            rule="different probes or several bins")
def kernels(case, ctx):
    cosmo = build_background(case["u"], exact=False)
    z = cosmo.z_grid
    p = case["p"]
    w1, w2 = weights(p, z)
    ctx.nontrivial(p["n"][0] > 1 or p["n"][1] > 1)
    names = {"probe1": p["p"][0], "probe2": p["p"][1]} if case["given"] else {}
    k = KernelFunction(weight1=weight(p["p"][0], w1, z), weight2=weight(p["p"][1], w2, z), cosmology=cosmo, **names)
    eq((k.probe1, k.probe2), tuple(p["p"]), "probes of the kernel")
    check(not k.is_evaluated, "not evaluated yet")
    k.evaluateOverRedshiftGrid(z)
    want = kernel_ref(cosmo, w1, w2)
    close(k.k_ijz, want, "kernel", rtol=1e-11, atol=1e-300)
    same_bits(k.z_grid, z, "grid of the kernel")
    # evaluated kernels are kept unless asked otherwise
    k.weight1.w_bin_z = w1 * 3
    if p["p"][0] != p["p"][1]:
        k.weight2.w_bin_z = w2 * 2
    k.evaluateOverRedshiftGrid(z)
    close(k.k_ijz, want, "kernel kept", rtol=1e-11, atol=1e-300)
    k.evaluateOverRedshiftGrid(z, overwrite=True)
    close(k.k_ijz, want * (9 if p["p"][0] == p["p"][1] else 6), "kernel evaluated again", rtol=1e-11, atol=1e-300)
    other = next(x for x in PROBES if x != p["p"][0])
    raises(AssertionError, lambda: KernelFunction(probe1=other, weight1=weight(p["p"][0], w1, z)), "probe differing from its weight's")


@st.composite
def ells(draw):
    n = draw(st.integers(1, 5))
    cs = sorted(draw(st.lists(st.integers(2, 4000), min_size=n, max_size=n, unique=True)))
    return [c + 0.5 * draw(st.integers(0, 1)) for c in cs]


@st.composite
def limber_case(draw):
    p = draw(pair())
    if draw(st.booleans()):
        p["p"][draw(st.integers(0, 1))] = "Void"
    if p["p"][0] == p["p"][1]:
        p["n"][1] = p["n"][0]
    return {"u": draw(background((5, 12))), "p": p, "pw": draw(power()), "l": draw(ells()),
            "cut": [draw(nice(0.05, 0.6, 55)), draw(nice(0.01, 0.3, 29))]}


def make(case, method="simpson"):
    cosmo = build_background(case["u"], exact=False)
    z, p = cosmo.z_grid, case["p"]
    set_power(cosmo, case["pw"])
    w1, w2 = weights(p, z)
    kern = KernelFunction(weight1=weight(p["p"][0], w1, z), weight2=weight(p["p"][1], w2, z), cosmology=cosmo)
    if p["p"][0] == p["p"][1]:
        kern.weight2 = kern.weight1
    l1 = np.array(case["l"])
    l2 = l1 if not case.get("l2") or p["p"][0] == p["p"][1] else np.array(case["l2"])
    ells = {p["p"][0]: (l1, 0.1 * l1 + 1)}
    if p["p"][0] != p["p"][1]:
        ells[p["p"][1]] = (l2, 0.1 * l2 + 1)
    cut = case.get("cut", [0.2, 0.1])
    fc = forecast_config(ells, {"Void": {"void_kcut_invMpc": cut[0], "void_kcut_width_invMpc": cut[1]},
                                "SpectroscopicGalaxy": {"compute_gcsp_cl_offdiag": case.get("offdiag", False)}})
    cl = AngularCoefficient(kernel=kern, forecast_config=fc,
                            angular_config=angular_config(cl=method, kx=case["pw"]["kx"], ky=case["pw"]["ky"]))
    common = sorted(set(l1.tolist()) & set(l2.tolist()))
    return cosmo, cl, (w1, w2), np.array(common)


def limber_ref(case, cosmo, l):
    r = C_KM_S / cosmo.H0 * cosmo.r_tilde_z
    k = (l[:, None] + 0.5) / r[None, :]
    P = eval_power(case["pw"], cosmo.z_grid[None, :], k)
    if "Void" in case["p"]["p"]:
        c, w = case.get("cut", [0.2, 0.1])
        t = np.clip((k - (c - w)) / (2 * w), 0, 1)
        P = P * (1 - t ** 4 * (35 - 84 * t + 70 * t ** 2 - 20 * t ** 3))
    return P, k


@CHECK.prop(limber_case(), quick=150, thorough=4000, rule="scales inside the table")
def limber_power_spectrum(case, ctx):
    cosmo, cl, _, l = make(case)
    cl.setUp()
    P, k = limber_ref(case, cosmo, l)
    inside = (k > 10 ** case["pw"]["lk"][0]) & (k < 10 ** case["pw"]["lk"][1])
    ctx.nontrivial(bool(inside.any()))
    ctx.label("void cut" if "Void" in case["p"]["p"] else "no cut", "some scales outside the table" if not inside.all() else "all inside")
    close(cl.l_bin_centers, l, "multipoles", rtol=0)
    close(cl.limber_power_spectrum_l_z, P, "Limber power spectrum", rtol=1e-7, atol=1e-9 * float(np.max(P)))
    check(bool(np.all(cl.limber_power_spectrum_l_z >= -1e-12 * np.max(P))), "non-negative")
    eq(cl.n_ell, len(l), "number of multipoles")


@st.composite
def cl_case(draw):
    method = draw(st.sampled_from(["simpson", "romberg", "quad"] + [f"newton-cotes_{n}" for n in range(1, 7)]))
    l = draw(ells())
    l2 = None
    if draw(st.booleans()):
        l2 = sorted(set(draw(st.lists(st.sampled_from(l), min_size=1))) | set(draw(st.lists(st.integers(5000, 5010), max_size=2))))
    p = draw(pair().filter(lambda p: method != "quad" or "Void" not in p["p"]))
    if draw(st.integers(0, 4)) == 0:
        n = draw(st.integers(2, 4))
        p.update(p=["SpectroscopicGalaxy"] * 2, n=[n, n])
    return {"u": draw(background((7, 17), romberg=method == "romberg")), "p": p, "pw": draw(power()), "l": l, "l2": l2,
            "method": method, "offdiag": draw(st.booleans())}


@CHECK.prop(cl_case(), quick=400, thorough=6000, rule="several bins")
def angular_spectra(case, ctx):
    cosmo, cl, (w1, w2), l = make(case, case["method"])
    p1, p2 = case["p"]["p"]
    ctx.nontrivial(max(case["p"]["n"]) > 1)
    ctx.label(case["method"], "auto" if p1 == p2 else "cross")
    cl.setUp()
    cl.evaluateAngularCorrelation()
    P, k = limber_ref(case, cosmo, l)
    uncut = eval_power(case["pw"], cosmo.z_grid[None, :], k)
    K = kernel_ref(cosmo, w1, w2)
    z = cosmo.z_grid
    eq(np.shape(cl.c_lij), (len(l), len(w1), len(w2)), "shape")
    diag_only = p1 == p2 == "SpectroscopicGalaxy" and not case["offdiag"]
    tol = 1e-2 if case["method"] == "quad" else 1e-6
    dl = 0.1 * l + 1
    close(cl.l_bin_centers, l, "multipoles", rtol=0)
    close(cl.l_bin_widths, dl, "multipole widths", rtol=1e-12)
    for a in range(len(l)):
        for i in range(len(w1)):
            for j in range(len(w2)):
                if diag_only and i != j:
                    ctx.label("off-diagonal skipped")
                    eq(float(cl.c_lij[a, i, j]), 0.0, "off-diagonal spectroscopic spectrum")
                    continue
                y = P[a] * K[i, j]
                scale = float(np.sum(np.abs(y)) + 1e-7 * np.sum(np.abs(uncut[a] * K[i, j]))) * (z[1] - z[0])
                close(cl.c_lij[a, i, j], rule_ref(case["method"], y, z), f"C_{i}{j}(l={l[a]})", rtol=tol,
                      atol=tol * scale + (1e-7 if case["method"] == "quad" else 0))


@CHECK.prop(st.fixed_dictionaries({"u": background((5, 20)), "p": pair(), "pw": power(), "l": ells(),
                                   "method": st.sampled_from(["romberg", "gauss", "", "newton-cotes_7", "newton-cotes_0"])}), quick=60, thorough=500,
            rule="invalid request")
def invalid_integration_settings(case, ctx):
    n = case["u"]["nz"] - 1
    if case["method"] == "romberg" and n & (n - 1) == 0:
        return
    ctx.nontrivial()
    _, cl, _, _ = make(case, case["method"])
    cl.setUp()
    raises(Exception, cl.evaluateAngularCorrelation, f"integration method {case['method']!r} on {n + 1} samples")

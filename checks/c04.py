"""C04: observed redshift densities: convolution, normalisation, bin content, shot noise."""
from pbt import *
from scipy.interpolate import CubicSpline
from scipy.special import erf
from seyfert.cosmology.redshift_density import (RedshiftDensity, DensityError, get_bins_overlap,
                                                compute_photoXspectro_shotnoise_ij)

CHECK = Check("C04", ["Instrument responses are at least 0.02(1+z) wide (the adaptive quadrature of the code resolves them); "
                      "integrals are compared to 1e-4 relative.",
                      "Between input nodes the catalogue is the not-a-knot cubic spline through them."])
GX, GW = np.polynomial.legendre.leggauss(6)


@st.composite
def catalogue(draw, nbins=(1, 3)):
    n = draw(st.integers(*nbins))
    lo = draw(nice(0.001, 0.6, 20))
    hi = lo + draw(nice(0.6, 2.5, 40))
    kind = draw(st.sampled_from(["powexp", "wiggle"]))
    cuts = sorted(draw(st.sets(st.integers(1, 39), min_size=n + 1, max_size=n + 1)))
    return {"lo": lo, "hi": hi, "npts": draw(st.integers(5, 40)), "kind": kind, "seed": draw(st.integers(0, 10 ** 6)),
            "amp": draw(st.sampled_from([1.0, 30.0, 3.5e8])), "z0": draw(nice(0.3, 1.5, 20)), "cuts": cuts,
            "uniform": draw(st.booleans()), "f_sky": draw(nice(0.05, 1, 19)),
            "resp": {"f_out": draw(st.sampled_from([0.0, 0.1, 0.3])), "z_b": draw(st.sampled_from([0.0, 0.05, -0.05])),
                     "sigma_b": draw(nice(0.03, 0.12, 9)), "c_b": draw(st.sampled_from([1.0, 1.0, 0.9])),
                     "z_o": draw(st.sampled_from([0.1, 0.2, -0.1, 1.2, -1.2])), "sigma_o": draw(nice(0.03, 0.12, 9)),
                     "c_o": draw(st.sampled_from([1.0, 1.1]))}}


def table(c):
    t = np.linspace(0, 1, c["npts"])
    if not c["uniform"]:
        t = t ** 1.3
    z = c["lo"] + (c["hi"] - c["lo"]) * t
    y = c["amp"] * (z / c["z0"]) ** 2 * np.exp(-(z / c["z0"]) ** 1.5)
    if c["kind"] == "wiggle":
        y = y * lcg(c["seed"], len(z), 0.6, 1.4)
    edges = c["lo"] + (c["hi"] - c["lo"]) * np.array(c["cuts"]) / 40
    return z, y, edges


def build(c, probe="PhotometricGalaxy"):
    z, y, edges = table(c)
    d = RedshiftDensity(probe=probe)
    d.input_z_domain, d.input_dN_dz_dOmega, d.z_bin_edges = z.copy(), y.copy(), edges.copy()
    d.instrument_response = dict(c["resp"])
    d.has_niz_from_input = False
    d.catalog_f_sky = c["f_sky"]
    return d, z, y, edges


def spline(z, y):
    cs = CubicSpline(z, y, bc_type="not-a-knot")
    return lambda x: np.where((np.asarray(x) >= z[0]) & (np.asarray(x) <= z[-1]), cs(x), 0.0)


def gauss(f, a, b, breaks):
    """piecewise Gauss-Legendre between the given break points, each interval split further"""
    pts = np.unique(np.concatenate([[a, b], [x for x in breaks if a < x < b], np.linspace(a, b, 60)]))
    h = np.diff(pts) / 2
    x = pts[:-1, None] + h[:, None] * (GX + 1)
    return float(np.sum(f(x.ravel()).reshape(x.shape) * GW * h[:, None]))


def in_bin(r, z, a, b):
    """probability that an object at z is observed in the bin (a, b)"""
    out = 0
    for f, z0, s, c in ((1 - r["f_out"], r["z_b"], r["sigma_b"], r["c_b"]), (r["f_out"], r["z_o"], r["sigma_o"], r["c_o"])):
        w = np.sqrt(2) * s * (1 + z)
        out = out + f / (2 * c) * (erf((z - c * a - z0) / w) - erf((z - c * b - z0) / w))
    return out


@CHECK.prop(st.fixed_dictionaries({"c": catalogue(), "zs": st.lists(nice(-0.3, 1.3, 160), min_size=2, max_size=8)}),
            quick=80, thorough=1500, rule="several bins or catastrophic outliers")
def convolution_and_normalisation(case, ctx):
    c = case["c"]
    d, z, y, edges = build(c)
    n = len(edges) - 1
    eq(d.n_bins, n, "number of bins")
    close(d.z_bin_centers, [(edges[i] + edges[i + 1]) / 2 for i in range(n)], "bin centres", rtol=1e-14)
    eq((float(d.z_min), float(d.z_max)), (float(z[0]), float(z[-1])), "catalogue range")
    zs = np.maximum(c["lo"] + (c["hi"] - c["lo"]) * np.array(sorted(set(case["zs"]))), 0.0)
    raises(DensityError, lambda: d.evaluate(zs), "evaluation before set-up")
    raises(DensityError, d.computeTotalGalaxyNumber, "galaxy number before set-up")
    d.setUp()
    d.evaluateSurfaceDensity()
    ctx.nontrivial(n > 1 or c["resp"]["f_out"] > 0)
    ctx.label(f"{n} bins", c["kind"], "outliers" if c["resp"]["f_out"] else "no outliers")
    s = spline(z, y)
    d.evaluate(zs.copy())
    eq(np.shape(d.norm_density_iz), (n, len(zs)), "shape of the evaluated density")
    same_bits(d.z_grid, zs, "evaluation grid")
    positive = bool(np.all(s(np.linspace(z[0], z[-1], 500)) >= 0))
    for i in range(n):
        a, b = edges[i], edges[i + 1]
        norm = gauss(lambda x: s(x) * in_bin(c["resp"], x, a, b), z[0], z[-1], z)
        if norm < 1e-3 * c["amp"] * 0.01:
            ctx.label("nearly empty bin")
            continue
        close(d.bin_norm_factors[i], norm, f"normalisation of bin {i}", rtol=1e-4, atol=1e-6)
        want = s(zs) * in_bin(c["resp"], zs, a, b) / norm
        close(d.norm_density_iz[i], want, f"normalised density of bin {i}", rtol=1e-4 + 1e-6 / norm, atol=1e-6 / (b - a))
        out = (zs < z[0]) | (zs > z[-1])
        check(bool(np.all(np.asarray(d.norm_density_iz[i])[out] == 0)), "density vanishes outside the catalogue range")
        if positive:
            check(bool(np.all(np.asarray(d.norm_density_iz[i]) >= 0)), f"density of bin {i} is non-negative")
        close(d.computeNormalizedDensityAtBinAndRedshift(i, float(zs[0])), want[0], "density at a scalar redshift",
              rtol=1e-4 + 1e-6 / norm, atol=1e-6 / (b - a))
    # on another grid, of the same length or not, the density has the values of that grid
    first = np.array(d.norm_density_iz)
    for other in ((zs + z[0]) / 2, zs[1:]):
        if len(other) and other[0] >= 0:
            d.evaluate(other)
            same_bits(d.z_grid, other, "second evaluation grid")
            for i in range(n):
                same_bits(d.norm_density_iz[i], d.computeNormalizedDensityAtBinAndRedshift(i, other), f"bin {i} on the second grid")
    d.evaluate(zs)
    same_bits(d.norm_density_iz, first, "density evaluated again on the first grid")
    for i in range(n):
        close(d.computeSurfaceDensityAtBin(i), gauss(s, edges[i], edges[i + 1], z), f"surface density of bin {i}", rtol=1e-4,
              atol=1e-7)
        close(d.dN_dOmega_bins[i], d.computeSurfaceDensityAtBin(i), "stored surface density", rtol=1e-12)
    close(sum(d.dN_dOmega_bins), gauss(s, edges[0], edges[-1], z), "bins add up to the catalogue between the outer edges",
          rtol=1e-4, atol=1e-7)
    close(d.shot_noise, [1 / x for x in d.dN_dOmega_bins], "shot noise", rtol=1e-12)
    close(d.computeTotalGalaxyNumber("quad"), gauss(s, z[0], z[-1], z) * 4 * np.pi * c["f_sky"], "total number of objects",
          rtol=1e-4)
    if len(z) % 2:   # Simpson's rule on pairs of (unequal) intervals
        h, g = np.diff(z)[::2], np.diff(z)[1::2]
        simpson = float(np.sum((h + g) / 6 * ((2 - g / h) * y[:-2:2] + (h + g) ** 2 / (h * g) * y[1:-1:2] + (2 - h / g) * y[2::2])))
        close(d.computeTotalGalaxyNumber(), simpson * 4 * np.pi * c["f_sky"], "total number of objects by Simpson's rule", rtol=1e-9)
        close(d.computeTotalGalaxyNumber("simps"), simpson * 4 * np.pi * c["f_sky"], "total number of objects by Simpson's rule", rtol=1e-9)
    raises(KeyError, lambda: d.computeTotalGalaxyNumber("no such method"), "unknown integration method")
    same_bits(d.input_z_domain, z, "catalogue redshifts untouched")
    same_bits(d.input_dN_dz_dOmega, y, "catalogue untouched")


@CHECK.prop(st.fixed_dictionaries({"resp": catalogue().map(lambda c: c["resp"]), "z": nice(0, 3, 100), "zp": vec(3, nice(-0.5, 3, 100))}),
            quick=150, thorough=3000, rule="outlier fraction not zero")
def instrument_response(case, ctx):
    r, z = case["resp"], case["z"]
    d, *_ = build({**CAT, "resp": r})
    d.setUp()
    ctx.nontrivial(r["f_out"] > 0)
    zp = np.array(case["zp"])
    want = 0
    for f, z0, s, c in ((1 - r["f_out"], r["z_b"], r["sigma_b"], r["c_b"]), (r["f_out"], r["z_o"], r["sigma_o"], r["c_o"])):
        w = s * (1 + z)
        want = want + f / (np.sqrt(2 * np.pi) * w) * np.exp(-0.5 * ((z - c * zp - z0) / w) ** 2)
    close(d.computeInstrumentResponse(zp, z), want, "instrument response", rtol=1e-9, atol=1e-300)
    close(d.computeInstrumentResponse(float(zp[0]), z), want[0], "instrument response of scalars", rtol=1e-9, atol=1e-300)


CAT = {"lo": 0.1, "hi": 1.1, "npts": 6, "kind": "powexp", "seed": 0, "amp": 1.0, "z0": 0.5, "cuts": [18, 20], "uniform": True,
       "f_sky": 0.3}


@st.composite
def given_density(draw):
    n = draw(st.integers(1, 4))
    return {"n": n, "npts": draw(st.integers(4, 30)), "seed": draw(st.integers(0, 10 ** 6)),
            "dn": draw(vec(n, nice(0.1, 50, 500))), "zs": draw(st.lists(nice(-0.2, 1.2, 140), min_size=1, max_size=8)),
            "lo": draw(nice(0, 0.5, 10)), "hi": draw(nice(0.8, 3, 22))}


@CHECK.prop(given_density(), quick=120, thorough=3000, rule="several bins")
def densities_given_bin_by_bin(case, ctx):
    n = case["n"]
    z = np.linspace(case["lo"], case["hi"], case["npts"])
    niz = lcg(case["seed"], n * len(z), 0, 2).reshape(n, len(z))
    edges = np.linspace(z[0], z[-1], n + 1)
    d = RedshiftDensity(probe="SpectroscopicGalaxy")
    d.input_z_domain, d.input_n_iz, d.z_bin_edges, d.has_niz_from_input = z, niz.copy(), edges, True
    d.dN_dOmega_bins = np.array(case["dn"])
    zs = z[0] + (z[-1] - z[0]) * np.array(sorted(set(case["zs"])))
    raises(DensityError, lambda: d.evaluate(zs), "evaluation before set-up")
    d.setUp()
    d.evaluate(zs)
    ctx.nontrivial(n > 1)
    for i in range(n):
        close(d.norm_density_iz[i], spline(z, niz[i])(zs), f"bin {i}", rtol=1e-9, atol=1e-9)
    other = (zs + z.mean()) / 2
    d.evaluate(other)
    for i in range(n):
        close(d.norm_density_iz[i], spline(z, niz[i])(other), f"bin {i} on a second grid", rtol=1e-9, atol=1e-9)
    d.evaluate(zs)
    for i in range(n):
        close(d.norm_density_iz[i], spline(z, niz[i])(zs), f"bin {i} on the first grid again", rtol=1e-9, atol=1e-9)
        eq(float(d.computeSurfaceDensityAtBin(i)), case["dn"][i], "surface density is the given one")
    d.evaluateSurfaceDensity()
    close(d.dN_dOmega_bins, case["dn"], "surface densities are the given ones", rtol=0)
    close(d.shot_noise, 1 / np.array(case["dn"]), "shot noise", rtol=1e-14)
    raises(DensityError, lambda: d.convolvedNdzdOmegaWithInstrumentResponse(zs, 0), "convolving a convolved density")
    same_bits(d.input_n_iz, niz, "input untouched")


@CHECK.prop(st.one_of(vec(4, st.integers(0, 12)), st.tuples(st.integers(0, 20), st.integers(1, 9), st.integers(0, 20), st.integers(1, 9)).map(
    lambda t: [t[0], t[0] + t[1], t[2], t[2] + t[3]])), quick=300, thorough=4000, rule="valid bins")
def bins_overlap(case, ctx):
    a, b, c, d = [x / 4 for x in case]
    if b <= a or d <= c:
        raises(Exception, lambda: get_bins_overlap(a, b, c, d), "bins with extrema in wrong order")
        return
    ctx.nontrivial()
    lo, hi = max(a, c), min(b, d)
    want = (lo, hi) if lo < hi else None
    ctx.label("overlap" if want else "disjoint")
    eq(get_bins_overlap(a, b, c, d), want, "overlap")
    eq(get_bins_overlap(c, d, a, b), want, "overlap, swapped")


@CHECK.prop(st.fixed_dictionaries({"ph": catalogue((1, 5)), "sp": catalogue((1, 4)), "dn": vec(5, nice(0.5, 30, 59))}),
            quick=150, thorough=3000, rule="some bins overlap")
def cross_catalogue_shot_noise(case, ctx):
    ph, *_ , eph = build(case["ph"])
    sp, zsp, ysp, esp = build(case["sp"], "SpectroscopicGalaxy")
    ph.dN_dOmega_bins = np.array(case["dn"][:len(eph) - 1])
    sp.interpolateInput()
    sp.dN_dOmega_bins = np.array([sp.computeSurfaceDensityAtBin(j) for j in range(sp.n_bins)])
    got = compute_photoXspectro_shotnoise_ij(ph, sp)
    eq(np.shape(got), (ph.n_bins, sp.n_bins), "shape")
    s = spline(zsp, ysp)
    for i in range(ph.n_bins):
        for j in range(sp.n_bins):
            lo, hi = max(eph[i], esp[j]), min(eph[i + 1], esp[j + 1])
            if lo >= hi:
                eq(float(got[i, j]), 0.0, f"disjoint bins {i},{j}")
                continue
            ctx.nontrivial()
            common = gauss(s, lo, hi, zsp)
            nsp = gauss(s, esp[j], esp[j + 1], zsp)
            if nsp < 1e-4:
                ctx.label("empty spectroscopic bin")
                continue
            close(got[i, j], common / (ph.dN_dOmega_bins[i] * nsp), f"bins {i},{j}", rtol=1e-4 + 5e-7 / nsp,
                  atol=5e-7 / (ph.dN_dOmega_bins[i] * nsp))
    raises(AssertionError, lambda: compute_photoXspectro_shotnoise_ij(sp, ph), "catalogues swapped")

"""C10: SteM derivatives."""
import parlib as pl
from coslib import *
from seyfert.cosmology.c_ells import AngularCoefficient
from seyfert.cosmology.kernel_functions import KernelFunction
from seyfert.cosmology.parameter import PhysicalParametersCollection
from seyfert.derivatives.cl_derivative import ClDerivative
from seyfert.derivatives.differentiator import SteMClDifferentiator
from seyfert.utils.workspace import WorkSpace

CHECK = Check("C10", ["Values are non-zero where the linearity criterion is decided (a relative deviation from zero is undefined).",
                      "Entries whose largest relative deviation is within 1e-6 of the 1% criterion are not judged.",
                      "Slopes are compared to 1e-7 of (largest value / half-width of the stencil) used."])


@st.composite
def stencil(draw):
    n = draw(st.integers(1, 8))
    return {"eps": sorted(draw(st.lists(st.integers(5, 120), min_size=n, max_size=n, unique=True))),
            "fid": draw(st.sampled_from([0.32, -1.0, 0.67, 0.0, 2.5, -0.2, 1e-3])), "factor": draw(st.sampled_from([1.0, 7.0]))}


def points(s):
    e = np.array(s["eps"]) / 1000 * s["factor"] * (s["fid"] or 1.0)
    return np.concatenate([s["fid"] - e[::-1], [s["fid"]], s["fid"] + e])


def slope(x, y):
    xm, ym = x.mean(), y.mean()
    b = float(np.sum((x - xm) * (y - ym)) / np.sum((x - xm) ** 2))
    return b, ym + b * (x - xm)


def stem_ref(x, y):
    """(slope, doubtful, number of points used)"""
    doubtful = False
    if np.all(y == y[0]):
        return 0.0, False, len(y)
    while True:
        b, fit = slope(x, y)
        dev = float(np.max(np.abs((y - fit) / y)))
        doubtful |= abs(dev - 0.01) < 1e-6
        if dev < 0.01 or len(y) <= 3:
            return b, doubtful, len(y)
        x, y = x[1:-1], y[1:-1]


@st.composite
def lines(draw):
    return {"s": draw(stencil()), "shape": [draw(st.integers(1, 4)), draw(st.integers(1, 4)), draw(st.integers(1, 4))],
            "seed": draw(st.integers(0, 10 ** 6)), "amp": draw(st.sampled_from([1e-9, 1e-5, 1.0, 1e4])), "ratio": draw(st.sampled_from([0.0, 0.1, 1.0, 30.0])),
            "flat": draw(st.booleans())}


@CHECK.prop(lines(), quick=300, thorough=15000, rule="negative values or slopes (always present)")
def exact_on_lines(case, ctx):
    x = points(case["s"])
    sh = case["shape"]
    n = int(np.prod(sh))
    b = case["amp"] * lcg(case["seed"], n, -1, 1)
    a = case["amp"] * case["ratio"] * lcg(case["seed"] + 1, n, -1, 1)
    if case["flat"]:
        b[0] = 0.0
    half = abs(x[-1] - x[0]) / 2
    y = a[None, :] + b[None, :] * (x[:, None] - x[len(x) // 2])
    ctx.nontrivial(True)
    ctx.label(f"{len(x)} points", f"offset {case['ratio']}")
    # rounding of the data at the innermost displacement limits what any slope can be
    inner = abs(x[len(x) // 2 + 1] - x[len(x) // 2])
    tol = 1e-9 * np.max(np.abs(y), axis=0) / inner + 1e-9 * np.abs(b) * half / inner + 1e-300
    y3 = y.reshape([len(x)] + sh)
    keep = (x.copy(), y3.copy())
    got = SteMClDifferentiator.vectorizedSteM(x, y3)
    check(np.array_equal(keep[0], x) and np.array_equal(keep[1], y3), "the inputs are modified")
    eq(got.shape, tuple(sh), "shape of the derivative")
    for k in range(n):
        close(got.ravel()[k], b[k], "vectorised slope of a line", rtol=0, atol=tol[k])
        with np.errstate(all="ignore"):
            close(SteMClDifferentiator.STEM_derivative(x, y[:, k]), b[k], "scalar slope of a line", rtol=0, atol=tol[k])


@st.composite
def curves(draw):
    return {"s": draw(stencil()), "shape": [draw(st.integers(1, 3)), draw(st.integers(1, 3)), draw(st.integers(1, 3))],
            "seed": draw(st.integers(0, 10 ** 6)), "curv": [draw(st.sampled_from([0.0, 0.05, 0.3, 2.0])) for _ in range(3)],
            "noise": draw(st.sampled_from([0.0, 1e-3, 0.02, 0.2])), "lin": draw(st.sampled_from([0.05, 0.5, 1.0])), "const": draw(st.booleans())}


def curve_data(case, x):
    sh = case["shape"]
    n = int(np.prod(sh))
    t = (x - x[len(x) // 2]) / (abs(x[-1] - x[0]) / 2)
    sign = np.sign(lcg(case["seed"], n, -1, 1))
    amp = 10 ** lcg(case["seed"] + 1, n, -8, 2)
    y = np.empty((len(x), n))
    for k in range(n):
        c = lcg(case["seed"] + 31 + k, 6, -1, 1)
        f = 1 + case["lin"] * c[0] * 0.9 * t + sum(case["curv"][p] * c[1 + p] * t ** (p + 2) for p in range(3))
        f = f + case["noise"] * lcg(case["seed"] + 977 * (k + 1), len(x), -1, 1)
        f = np.where(np.abs(f) < 1e-3, 1e-3, f)
        if case["const"] and k == 0:
            f = np.ones(len(x))
        y[:, k] = sign[k] * amp[k] * f
    return y


@CHECK.prop(curves(), quick=500, thorough=20000, rule="some entry uses a reduced stencil")
def matches_reference_and_scalar(case, ctx):
    x = points(case["s"])
    y = curve_data(case, x)
    n = y.shape[1]
    ref = [stem_ref(x, y[:, k]) for k in range(n)]
    ctx.nontrivial(any(r[2] < len(x) for r in ref))
    ctx.label("down to three points" if any(r[2] == 3 and len(x) > 3 for r in ref) else "", "mixed" if len({r[2] for r in ref}) > 1 else "uniform")
    vec_ = SteMClDifferentiator.vectorizedSteM(x, y.reshape([len(x)] + case["shape"])).ravel()
    inner = abs(x[len(x) // 2 + 1] - x[len(x) // 2])
    for k in range(n):
        b, doubtful, used = ref[k]
        if doubtful:
            continue
        tol = 1e-9 * float(np.max(np.abs(y[:, k]))) / inner
        close(vec_[k], b, f"vectorised derivative of an entry using {used} of {len(x)} points", rtol=1e-9, atol=tol)
        close(SteMClDifferentiator.STEM_derivative(x, y[:, k]), b, f"scalar derivative using {used} of {len(x)} points", rtol=1e-9, atol=tol)


@st.composite
def collected(draw):
    n = draw(st.sampled_from([1, 2, 3, 7, 7, 10, 11, 12]))
    return {"eps": sorted(draw(st.lists(st.integers(5, 120), min_size=n, max_size=n, unique=True))), "seed": draw(st.integers(0, 10 ** 6)),
            "par": draw(st.sampled_from(["Omm", "w0", "wa", "aIA", "bgph1", "bgsp3", "sigma8"])), "fid": draw(st.sampled_from([0.32, -1.0, 0.0, 1.7])),
            "p": draw(st.sampled_from([("PhotometricGalaxy", "Lensing"), ("Lensing", "Lensing"), ("SpectroscopicGalaxy", "SpectroscopicGalaxy"),
                                       ("Lensing", "SpectroscopicGalaxy"), ("PhotometricGalaxy", "SpectroscopicGalaxy")])),
            "n": [draw(st.integers(1, 3)), draw(st.integers(1, 3))], "nl": draw(st.integers(1, 3)), "curv": draw(st.sampled_from([0.0, 0.0, 1.0]))}


OWNER = {"aIA": "Lensing", "bgph1": "PhotometricGalaxy", "bgsp3": "SpectroscopicGalaxy"}


@CHECK.prop(collected(), quick=40, thorough=400, rule="more than nine displacements, or a parameter the spectrum does not depend on")
def from_stored_spectra(case, ctx):
    """the files written for each (parameter, step) give the derivative of that parameter"""
    root = ctx.tmp()
    ws = WorkSpace(root)
    par = case["par"]
    names = [par] + [n for n in ("Omm", "aIA", "bgph1", "bgph10", "sigma8") if n != par]
    pars = [PhysicalParameter(name=n, fiducial=float(case["fid"] if n == par else 0.9), is_free_parameter=True, probe=OWNER.get(n, OWNER["bgph1"] if n[0] == "b" else None),
                              kind=PhysicalParameter.NUISANCE_PAR_STRING if n in OWNER or n[0] == "b" else PhysicalParameter.COSMO_PAR_STRING) for n in names]
    coll = PhysicalParametersCollection(data_dict={p.name: p for p in pars}, base_stem_disps=np.array(case["eps"]) / 1000, is_universe_flat=False)
    coll.writeJSON(root / "params.json")
    (root / "input_files_dict.json").write_text(json.dumps({"params": "params.json"}))
    p1, p2 = case["p"]
    n1, n2 = case["n"][0], case["n"][0] if p1 == p2 else case["n"][1]
    z = np.linspace(0.1, 1, 4)
    fiducial = lcg(case["seed"], case["nl"] * n1 * n2, 0.5, 2).reshape(case["nl"], n1, n2)
    slopes = lcg(case["seed"] + 1, case["nl"] * n1 * n2, -2, 2).reshape(fiducial.shape)
    ells = np.arange(1, case["nl"] + 1) * 10.0
    n = len(case["eps"])

    def store(name, step, c):
        d = root / "Angular" / (f"dvar_{name}_step_0" if step == 0 else f"dvar_{name}_step_{'p' if step > 0 else 'm'}_{abs(step)}")
        d.mkdir(parents=True)
        k = KernelFunction(weight1=weight(p1, np.ones((n1, 4)), z), weight2=weight(p2, np.ones((n2, 4)), z))
        k.z_grid, k.k_ijz = z, np.ones((n1, n2, 4))
        cl = AngularCoefficient(probe1=p1, probe2=p2, kernel=k)
        cl.c_lij, cl.l_bin_centers, cl.l_bin_widths = c, ells, np.ones(len(ells))
        cl.saveToHDF5(d / "cls.h5", root="cls")
    x = [p.fiducial for p in pars if p.name == par] * (2 * n + 1)
    fid = case["fid"]
    ys = {}
    for k in range(-n, n + 1):
        e = 0 if k == 0 else math.copysign(case["eps"][abs(k) - 1] / 1000, k)
        x[k + n] = fid + e * (fid or 1.0)
        dx = x[k + n] - fid
        ys[k] = fiducial + slopes * dx + case["curv"] * 20 * dx ** 2
    store("central", 0, ys[0])
    for k in range(n, -n - 1, -1):
        if k:
            store(par, k, ys[k])
    other = "bgph10" if par == "bgph1" else ("sigma8" if par != "sigma8" else "Omm")
    for k in (-1, 1):  # another parameter's variations must not leak in
        store(other, k, 50 + 10 * ys[0])
    owner = OWNER.get(par)
    zero = owner is not None and owner not in (p1, p2)
    ctx.nontrivial(n > 9 or zero)
    ctx.label("independent spectrum" if zero else "", f"{n} displacements")
    d = ClDerivative(p1=p1, p2=p2, param=coll[par], workspace=ws)
    d.evaluate()
    same_bits(d.l_bin_centers, ells, "multipoles of the derivative")
    xs = np.array(x)
    Y = np.stack([ys[k] for k in range(-n, n + 1)])
    for idx in np.ndindex(*fiducial.shape):
        if zero:
            eq(float(d.dc_lij[idx]), 0.0, "derivative of a spectrum with respect to another probe's nuisance parameter")
            continue
        b, doubtful, used = stem_ref(xs, Y[(slice(None),) + idx])
        if doubtful:
            continue
        close(d.dc_lij[idx], b, f"derivative from {n} displacements ({used} points used)", rtol=1e-7, atol=1e-8 * float(np.max(np.abs(Y))) / (case["eps"][0] / 1000))


"""C09: numerical building blocks."""
from pbt import *
from fractions import Fraction
import pandas as pd
from scipy import special
from seyfert.numeric import general as nu
from seyfert.numeric.integration import CompositeNewtonCotesIntegrator, IntegrationError
from seyfert.utils import array_utils as au, converters as cv

CHECK = Check("C09", ["Polynomial exactness is checked to 1e-9 of the sum of the absolute terms (rounding), on evenly spaced nodes as the rules require.",
                      "Linear multipole grids use integer limits."])


def exact_weights(n):
    """Newton-Cotes weights on 0..n from the moment equations, in exact arithmetic."""
    A = [[Fraction(j) ** p for j in range(n + 1)] for p in range(n + 1)]
    b = [Fraction(n) ** (p + 1) / (p + 1) for p in range(n + 1)]
    for c in range(n + 1):
        piv = next(r for r in range(c, n + 1) if A[r][c] != 0)
        A[c], A[piv], b[c], b[piv] = A[piv], A[c], b[piv], b[c]
        for r in range(n + 1):
            if r != c and A[r][c] != 0:
                f = A[r][c] / A[c][c]
                A[r] = [x - f * y for x, y in zip(A[r], A[c])]
                b[r] -= f * b[c]
    return [float(b[k] / A[k][k]) for k in range(n + 1)]


W = {n: exact_weights(n) for n in range(1, 7)}


@st.composite
def nc_case(draw):
    nd = draw(st.integers(1, 3))
    return {"order": draw(st.integers(1, 6)), "n": draw(st.integers(2, 33)), "x0": draw(nice(-5, 5, 100)), "h": draw(nice(0.01, 2, 199)),
            "shape": [draw(st.integers(1, 3)) for _ in range(nd)], "axis": draw(st.integers(0, nd - 1)), "neg": draw(st.booleans()),
            "seed": draw(st.integers(0, 10 ** 6)), "coef": [draw(nice(-3, 3, 60)) for _ in range(7)], "f": draw(nice(-4, 4, 80))}


def nc(x, y, order, axis):
    before = y.copy()
    out = CompositeNewtonCotesIntegrator(x=x, y=y, order=order, axis=axis).computeIntegral()
    check(np.array_equal(before, y), "the integrand is modified")
    return out


@CHECK.prop(nc_case(), quick=400, thorough=15000, rule="composite (more than one block)")
def newton_cotes(case, ctx):
    n, order, h = case["n"], case["order"], case["h"]
    x = case["x0"] + h * np.arange(n)
    dx = x[1] - x[0]
    shape = list(case["shape"])
    shape[case["axis"]] = n
    axis = case["axis"] - len(shape) if case["neg"] else case["axis"]
    y = lcg(case["seed"], int(np.prod(shape)), -2, 3).reshape(shape)
    ctx.nontrivial(n - 1 > order)
    ctx.label(f"order {order}", "excess" if (n - 1) % order else "exact")
    ym = np.moveaxis(y, case["axis"], -1)
    ref = np.zeros(ym.shape[:-1])
    pos = 0
    while pos < n - 1:
        m = min(order, n - 1 - pos)
        ref = ref + dx * sum(W[m][j] * ym[..., pos + j] for j in range(m + 1))
        pos += m
    scale = float(np.sum(np.abs(y))) * abs(dx) / max(1, ref.size) * 3 + 1e-12
    got = nc(x, y, order, axis)
    close(got, ref, f"Newton-Cotes order {order} on {n} nodes", rtol=1e-9, atol=1e-10 * scale)
    y2 = lcg(case["seed"] + 5, y.size, -2, 3).reshape(shape)
    close(nc(x, case["f"] * y + y2, order, axis), case["f"] * got + nc(x, y2, order, axis), "linearity", rtol=1e-9, atol=1e-10 * 10 * scale)
    # exactness on polynomials
    excess = (n - 1) % order
    degs = [m + (1 if m % 2 == 0 else 0) for m in ([order] if n - 1 >= order else []) + ([excess] if excess else [])]
    deg = min(min(degs), 6)
    c = case["coef"][:deg + 1]
    t = x - x[0]
    py = sum(ck * t ** k for k, ck in enumerate(c))
    terms = [ck * t[-1] ** (k + 1) / (k + 1) for k, ck in enumerate(c)]
    close(nc(x, py, order, -1), sum(terms), f"polynomial of degree {deg}", rtol=0, atol=1e-9 * (sum(abs(v) for v in terms) + 1e-9))
    if n > 2 and (n - 1) % order == 0:
        nb = (n - 1) // order
        cut = order * max(1, nb // 2)
        if cut < n - 1:
            y1 = py + np.sin(t)
            close(nc(x[:cut + 1], y1[:cut + 1], order, -1) + nc(x[cut:], y1[cut:], order, -1), nc(x, y1, order, -1),
                  "additivity over adjacent intervals", rtol=1e-9, atol=1e-9 * float(np.sum(np.abs(y1))) * h)
    # refused
    raises((IntegrationError, ValueError), lambda: CompositeNewtonCotesIntegrator(x=x, y=py, order=7), "order 7")
    raises((IntegrationError, ValueError), lambda: CompositeNewtonCotesIntegrator(x=x, y=py, order=-order), "negative order")
    raises(Exception, lambda: CompositeNewtonCotesIntegrator(x=x, y=py[:-1], order=order), "different lengths")


@st.composite
def helper_case(draw):
    return {"x": draw(st.lists(nice(-3, 4, 140), min_size=1, max_size=8)), "lo": draw(nice(-2, 2, 40)), "w": draw(nice(0.05, 3, 59)),
            "N": draw(st.integers(0, 6)), "R": draw(nice(0.1, 5, 49)), "coef": [draw(nice(-3, 3, 60)) for _ in range(5)],
            "step": draw(nice(0.001, 0.5, 499)), "a": draw(nice(-2, 2, 40))}


@CHECK.prop(helper_case(), quick=400, thorough=15000, rule="some point strictly inside the transition")
def smooth_and_stencil(case, ctx):
    x = np.array(case["x"])
    lo, hi, N = case["lo"], case["lo"] + case["w"], case["N"]
    t = np.clip((x - lo) / (hi - lo), 0, 1)
    ctx.nontrivial(bool(np.any((t > 0) & (t < 1))))
    s = nu.smoothstep(x, x_min=lo, x_max=hi, N=N)
    close(s, special.betainc(N + 1, N + 1, t), "smoothstep", rtol=0, atol=1e-9 * 4 ** N)
    check(np.all(s[x <= lo] == 0), "zero before the step")
    close(s[x >= hi], np.ones(int(np.sum(x >= hi))), "one after the step", rtol=0, atol=1e-9 * 4 ** N)
    close(nu.smoothstep(float(x[0]), x_min=lo, x_max=hi, N=N), s[0], "scalar smoothstep", rtol=0, atol=1e-13 * 4 ** N)
    close(nu.smoothstep(x), special.betainc(4, 4, np.clip(x, 0, 1)), "default smoothstep", rtol=0, atol=1e-8)
    close(nu.smoothstep(lo + hi - x, x_min=lo, x_max=hi, N=N), 1 - s, "smoothstep is odd about its middle", rtol=0, atol=1e-8 * 4 ** N)
    R = case["R"]
    k = np.abs(x) * R / 1.5
    u = np.clip((k - 0.9 * R) / (0.2 * R), 0, 1)
    close(nu.top_hat_filter(k, R), 1 - special.betainc(4, 4, u), "top hat filter", rtol=0, atol=1e-8)
    c, h, a = case["coef"], case["step"], case["a"]

    def f(v, shift=0.0):
        return sum(ck * (v - shift) ** p for p, ck in enumerate(c))
    want = sum(p * ck * (x - a) ** (p - 1) for p, ck in enumerate(c) if p)
    size = sum(abs(ck) * (np.max(np.abs(x - a)) + 1) ** p for p, ck in enumerate(c)) + 1e-9
    close(nu.callable_stencil_derivative(f, x, h, shift=a), want, "five-point derivative of a quartic", rtol=0, atol=1e-13 * size / h * 10)
    want0 = sum(p * ck * x[0] ** (p - 1) for p, ck in enumerate(c) if p)
    size0 = sum(abs(ck) * (abs(x[0]) + 1) ** p for p, ck in enumerate(c)) + 1e-9
    close(nu.callable_stencil_derivative(f, float(x[0]), h), want0, "five-point derivative at a point", rtol=0, atol=1e-13 * size0 / h * 10)


@st.composite
def pad_case(draw):
    r, c = draw(st.integers(1, 4)), draw(st.integers(1, 4))
    v = st.one_of(nice(-3, 3, 60), st.just(0.0))
    return {"shape": [r, c], "x": vals(draw, v, r * c), "y": vals(draw, v, r * c), "opposite": draw(st.integers(0, 15)),
            "perm": [draw(st.integers(0, 23)), draw(st.integers(0, 23))]}


def vals(draw, v, n):
    return [draw(v) for _ in range(n)]


def kperm(n, k):
    items, out = list(range(n)), []
    for m in range(n, 0, -1):
        out.append(items.pop(k % m))
        k //= m
    return out


@CHECK.prop(pad_case(), quick=300, thorough=10000, rule="some pair sums to zero or to a negative number")
def percentage_differences(case, ctx):
    sh = case["shape"]
    x, y = np.array(case["x"]).reshape(sh), np.array(case["y"]).reshape(sh)
    y.flat[case["opposite"] % y.size] = -x.flat[case["opposite"] % y.size]
    ctx.nontrivial(True)
    want = np.zeros(sh)
    for a in np.ndindex(*sh):
        if x[a] + y[a] != 0:
            want[a] = 200 * abs(x[a] - y[a]) / abs(x[a] + y[a])
            close(nu.pad(float(x[a]), float(y[a])), want[a], "scalar percentage absolute difference")
    close(nu.pad(x, y), want, "array percentage absolute difference")
    close(nu.pad(y, x), want, "symmetric")
    nz = (x + y) != 0
    idx, col = [f"r{k}" for k in range(sh[0])], [f"c{k}" for k in range(sh[1])]
    dx, dy = pd.DataFrame(x, index=idx, columns=col), pd.DataFrame(y, index=idx, columns=col)
    p, q = kperm(sh[0], case["perm"][0]), kperm(sh[1], case["perm"][1])
    df = nu.pad(dx, dy.iloc[p, q])
    eq((list(df.index), list(df.columns)), (idx, col), "labels of the table")
    close(df.values[nz], want[nz], "table percentage absolute difference matches labels")
    raises(Exception, lambda: nu.pad(dx, dy.rename(index={"r0": "other"})), "tables with different rows")
    raises(Exception, lambda: nu.pad(dx, dy.rename(columns={"c0": "other"})), "tables with different columns")
    norm = np.abs(x + y) / 2
    if np.max(norm) > 0:
        close(nu.odm_weighted_pad(x, y), want * norm / np.mean(norm), "weighted by the mean", rtol=1e-9, atol=1e-12)
        close(nu.odm_weighted_pad(x, y, ref="max"), want * norm / np.max(norm), "weighted by the maximum", rtol=1e-9, atol=1e-12)
    ok = x != 0
    close(nu.percentage_difference(y[ok], x[ok]), 100 * (y[ok] / x[ok] - 1), "percentage difference", rtol=1e-9, atol=1e-9)


@st.composite
def arrays_case(draw):
    n = draw(st.integers(1, 5))
    k = draw(st.integers(1, 3))
    return {"arrays": [draw(st.lists(st.integers(0, 12).map(lambda v: v / 2), min_size=0 if n > 1 else 1, max_size=10)) for _ in range(n)],
            "sym": [draw(st.integers(1, 3)), k, draw(st.integers(0, 10 ** 6))]}


@CHECK.prop(arrays_case(), quick=300, thorough=10000, rule="at least three arrays")
def set_operations(case, ctx):
    arrs = [np.array(a) for a in case["arrays"]]
    ctx.nontrivial(len(arrs) > 2)
    sets = [set(a) for a in case["arrays"]]
    inter, union = au.compute_arrays_intersection1d(arrs), au.compute_arrays_union1d(arrs)
    eq(set(inter.tolist()), set.intersection(*sets), "intersection")
    eq(union.tolist(), sorted(set.union(*sets)), "union")
    if len(arrs) > 1:
        eq(inter.tolist(), sorted(set.intersection(*sets)), "sorted intersection")
    nl, nb, seed = case["sym"]
    X = lcg(seed, nl * nb * nb, -3, 3).reshape(nl, nb, nb)
    S = au.symmetrize_clij_arr(X)
    for l in range(nl):
        for i in range(nb):
            for j in range(nb):
                close(S[l, i, j], (X[l, i, j] + X[l, j, i]) / 2, "symmetrised", rtol=1e-12, atol=1e-15)


@st.composite
def ell_case(draw):
    return {"lmin": draw(st.integers(1, 60)), "dl": draw(st.integers(1, 400)), "scale": draw(st.sampled_from([1, 10])), "n": draw(st.integers(1, 120)),
            "lin": draw(st.sampled_from(["lin", "linear", "Linear"])), "log": draw(st.sampled_from(["log", "logarithmic", "Logarithmic"])),
            "bad": draw(st.text(max_size=8)), "frac": draw(nice(0, 0.9, 9)), "isfloat": draw(st.booleans())}


@CHECK.prop(ell_case(), quick=400, thorough=15000, rule="several bins")
def multipole_grids(case, ctx):
    lo, hi, n = case["lmin"], case["lmin"] + case["dl"] * case["scale"], case["n"]
    ctx.nontrivial(n > 1 and hi - lo > 1)
    c, w = au.compute_multipoles_arrays(lo, hi, case["lin"])
    same_bits(c, np.array([l + 0.5 for l in range(lo, hi)]), "centres of the linear bins")
    same_bits(w, np.ones(hi - lo), "widths of the linear bins")
    lf, hf = lo + case["frac"], float(hi)
    c, w = au.compute_multipoles_arrays(lf, hf, case["log"], n_ell=float(n) if case["isfloat"] else n)
    edges = np.array([lf * (hf / lf) ** (k / n) for k in range(n + 1)])
    close(c, (edges[1:] + edges[:-1]) / 2, "centres of the logarithmic bins", rtol=1e-10)
    close(w, edges[1:] - edges[:-1], "widths of the logarithmic bins", rtol=0, atol=1e-10 * hf)
    if n > 1:
        close(au.compute_ell_bin_widths_from_log_centers(c), w, "widths recovered from the logarithmic centres", rtol=1e-8, atol=1e-10 * hf)
    for sp in (case["lin"], case["log"]):
        raises(ValueError, lambda: au.compute_multipoles_arrays(hi, lo, sp, n_ell=n), "l_min > l_max")
        raises(ValueError, lambda: au.compute_multipoles_arrays(lo, lo, sp, n_ell=n), "l_min = l_max")
    raises(ValueError, lambda: au.compute_multipoles_arrays(lo, hi, case["log"]), "logarithmic bins without their number")
    raises((TypeError, ValueError), lambda: au.compute_multipoles_arrays(lo, hi, case["log"], n_ell=str(n)), "number of bins given as text")
    if case["bad"] not in ("lin", "linear", "Linear", "log", "logarithmic", "Logarithmic"):
        raises(KeyError, lambda: au.compute_multipoles_arrays(lo, hi, case["bad"], n_ell=n), "unknown spacing")


DEG = 180 / math.pi
UNITS = {"InchesToPts": 72, "PtsToInches": 1 / 72, "InchesToCm": 2.54, "CmToInches": 1 / 2.54, "SteradToDeg2": DEG ** 2, "SteradToArcmin2": (60 * DEG) ** 2,
         "Deg2ToSterad": DEG ** -2, "Arcmin2ToSterad": (60 * DEG) ** -2, "invDeg2ToInvSterad": DEG ** 2, "invSteradToinvDeg2": DEG ** -2,
         "invArcmin2ToInvSterad": (60 * DEG) ** 2, "invSteradToinvArcmin2": (60 * DEG) ** -2}
PAIRS = [("InchesToPts", "PtsToInches"), ("InchesToCm", "CmToInches"), ("SteradToDeg2", "Deg2ToSterad"), ("SteradToArcmin2", "Arcmin2ToSterad"),
         ("invDeg2ToInvSterad", "invSteradToinvDeg2"), ("invArcmin2ToInvSterad", "invSteradToinvArcmin2")]


@CHECK.prop(st.fixed_dictionaries({"x": st.lists(nice(-1e6, 1e6, 999999), min_size=1, max_size=6)}), quick=200, thorough=4000, rule="always")
def unit_converters(case, ctx):
    ctx.nontrivial()
    x = np.array(case["x"])
    for name, f in UNITS.items():
        close(getattr(cv, name)(x), x * f, name, rtol=1e-12)
        close(getattr(cv, name)(float(x[0])), x[0] * f, name + " (scalar)", rtol=1e-12)
    for a, b in PAIRS:
        close(getattr(cv, b)(getattr(cv, a)(x)), x, f"{b}({a}(x))", rtol=1e-12)
        close(getattr(cv, a)(getattr(cv, b)(x)), x, f"{a}({b}(x))", rtol=1e-12)
    # a density per deg2 and the area it refers to use inverse factors
    close(cv.invDeg2ToInvSterad(x) * cv.Deg2ToSterad(1.0), x, "objects per deg2 times an area of one deg2", rtol=1e-12)
    close(cv.invArcmin2ToInvSterad(x) * cv.Arcmin2ToSterad(1.0), x, "objects per arcmin2 times an area of one arcmin2", rtol=1e-12)

"""C34: computed objects compare equal exactly when they hold the same numbers."""
import contextlib
import copy
import io
import re
from coslib import *
import c21
import fisherlib as fl
from seyfert.cosmology.c_ells import AngularCoefficientsCollector
from seyfert.cosmology.kernel_functions import KernelFunction
from seyfert.cosmology.parameter import PhysicalParametersCollection

CHECK = Check("C34", ["Finite values (a NaN differs from itself).",
                      "Objects of the same kind are compared; the numbers are the arrays and settings an object stores, not its caches, input file or names of axes.",
                      "Of a spectrum: values, multipoles and widths; of a noisy spectrum also the noise; of a weight function: grid and values; of a parameter: name, kind, fiducial and current value."])


def relation(a, b, want, what):
    """a == b and b == a, without raising"""
    for x, y, side in ((a, b, ""), (b, a, " (other side)")):
        with contextlib.redirect_stdout(io.StringIO()):
            try:
                got, ne = x == y, x != y
            except Exception as e:  # noqa: BLE001
                raise Violation(f"{what}{side}: the comparison raised {type(e).__name__}: {e}")
        check(bool(got) is want, f"{what}{side}: compared as {'equal' if got else 'different'}")
        check(bool(ne) is not want, f"{what}{side}: == gives {got} but != gives {ne}")


def variants(a, pos):
    """arrays of other content or shape than a, with the way they differ"""
    k = pos % a.size
    for nm, v in (("one value changed", 1.001), ("one value an ulp away", None), ("one sign changed", -1.0)):
        b = a.copy()
        x = b.flat[k]
        b.flat[k] = np.nextafter(x, np.inf) if v is None else (x * v if x else 1.0)
        if not np.array_equal(a, b):
            yield nm, b
    for ax in range(a.ndim):
        n = a.shape[ax]
        if n > 1:
            yield f"last along axis {ax} missing", np.take(a, range(n - 1), axis=ax)
            yield f"only the first along axis {ax}", np.take(a, [0], axis=ax)
            r = np.flip(a, axis=ax)
            if not np.array_equal(r, a):
                yield f"reversed along axis {ax}", r.copy()
        yield f"first along axis {ax} repeated", np.concatenate([np.take(a, [0], axis=ax), a], axis=ax)
    yield "a constant of the first value", a.flat[:1].reshape((1,) * a.ndim).copy() if a.size > 1 else np.full((2,) + a.shape[1:], a.flat[0])
    yield "missing", None


def explore(obj, fields, pos, what, rebuilt=None):
    """the object equals its copies and differs from every variant; returns the number of variants"""
    n = 0
    relation(obj, obj, True, f"{what} and itself")
    relation(obj, copy.deepcopy(obj), True, f"{what} and its copy")
    if rebuilt is not None:
        relation(obj, rebuilt, True, f"{what} and the same one built again")
    for f in fields:
        a = getattr(obj, f)
        if a is None:
            o = copy.deepcopy(obj)
            setattr(o, f, np.array([1.0, 2.0]))
            relation(obj, o, False, f"{what}, {f} present in one only")
            n += 1
            continue
        for nm, v in variants(np.asarray(a), pos):
            o = copy.deepcopy(obj)
            setattr(o, f, v)
            relation(obj, o, False, f"{what}, {f}: {nm}")
            n += 1
    return n


POS = st.integers(0, 10 ** 6)


@CHECK.prop(st.tuples(c21.cosmo_case(), POS), quick=60, thorough=1500, rule="power spectrum with several redshifts and wave-numbers")
def power_spectra(case, ctx):
    case, pos = {**case[0], "special": 0}, case[1]
    p = c21.make_power(case)
    ctx.nontrivial(case["nz"] > 1 and case["nk"] > 1)
    explore(p, ["z_grid", "k_grid", "lin_p_mm_z_k", "nonlin_p_mm_z_k", "transfer_function"], pos, "power spectrum", c21.make_power(case))
    # fewer redshifts throughout: consistent, but not the same
    if case["nz"] > 1:
        q = copy.deepcopy(p)
        for a in ("z_grid", "lin_p_mm_z_k", "nonlin_p_mm_z_k"):
            setattr(q, a, getattr(p, a)[:1])
        relation(p, q, False, "power spectra with all and with the first redshift")


def make_cosmology(case):
    u = case["u"]
    vals = {"Omm": u["Omm"], "w0": u["w0"], "wa": u["wa"], "h": u["h"], "OmDE": 1 - u["Omm"] + (0 if case["flat"] else 0.03)}
    base = cosmo_params(vals)
    pars = {n: base[n] for n in case["order"]}
    c = Cosmology(params=pars, flat=case["flat"], z_grid=np.linspace(0.1, 1, 4), model_name=case["model"])
    if case["power"]:
        c.power_spectrum = c21.make_power(case)
    return c


@CHECK.prop(st.tuples(c21.cosmo_case(), POS), quick=60, thorough=1500, rule="cosmology with a power spectrum")
def cosmologies(case, ctx):
    case, pos = {**case[0], "special": 0}, case[1]
    c = make_cosmology(case)
    ctx.nontrivial(case["power"])
    relation(c, copy.deepcopy(c), True, "cosmology and its copy")
    relation(c, make_cosmology({**case, "order": list(reversed(case["order"]))}), True, "cosmologies with the parameters in another order")
    names = sorted(c.params)
    nm = names[pos % len(names)]
    for f, v in (("fiducial", 7.5), ("current_value", 7.5), ("name", "other"), ("kind", "nuisance")):
        o = copy.deepcopy(c)
        setattr(o.params[nm], f, v)
        relation(o.params[nm], c.params[nm], False, f"parameter {nm} with another {f}")
        relation(c, o, False, f"cosmologies with another {f} of {nm}")
    o = copy.deepcopy(c)
    par = o.params[nm]
    par.current_value = float(np.nextafter(par.current_value, 9))
    relation(c, o, False, f"cosmologies whose {nm} is an ulp apart")
    o = copy.deepcopy(c)
    o.model_name = c.model_name + "x"
    relation(c, o, False, "cosmologies of different models")
    o = make_cosmology({**case, "flat": not case["flat"]})
    relation(c, o, False, "flat and curved cosmology")
    o = copy.deepcopy(c)
    o.is_flat = not c.is_flat
    relation(c, o, False, "cosmologies of the same parameters, flat and not")
    o = copy.deepcopy(c)
    del o.params[nm]
    relation(c, o, False, f"cosmologies with and without {nm}")
    if case["power"]:
        for k, (w, v) in enumerate(variants(c.power_spectrum.lin_p_mm_z_k, pos)):
            o = copy.deepcopy(c)
            o.power_spectrum.lin_p_mm_z_k = v
            relation(c, o, False, f"cosmologies, linear power spectrum: {w}")
    o = copy.deepcopy(c)
    o.power_spectrum = c21.make_power({**case, "seed": case["seed"] + 1}) if not case["power"] else None
    relation(c, o, False, "cosmologies with and without power spectrum")
    # collections of parameters
    a, b = PhysicalParametersCollection(), PhysicalParametersCollection()
    for n in names:
        a[n] = c.params[n]
    for n in reversed(names):
        b[n] = copy.deepcopy(c.params[n])
    relation(a, b, True, "collections of the same parameters")
    b[nm].current_value += 0.5
    relation(a, b, False, f"collections with another value of {nm}")
    b = PhysicalParametersCollection()
    for n in names:
        if n != nm:
            b[n] = copy.deepcopy(c.params[n])
    relation(a, b, False, f"collections with and without {nm}")


@CHECK.prop(st.tuples(c21.density_case(), c21.bias_case(), POS), quick=60, thorough=1500, rule="several bins")
def densities_and_biases(case, ctx):
    dc, bc, pos = case
    d = c21.make_density(dc)
    ctx.nontrivial(dc["n"] > 1 and bc["n"] > 1)
    fields = ["z_bin_edges", "input_z_domain", "dN_dOmega_bins", "input_n_iz", "input_dN_dz_dOmega", "norm_density_iz", "z_grid"]
    if dc["evaluated"]:
        d.z_grid, d.norm_density_iz = np.linspace(0.2, 0.4, 5), c21.arr(dc["seed"] + 7, dc["n"], 5)
    explore(d, fields, pos, "density", copy.deepcopy(d))
    for f, v in (("probe", "Other"), ("catalog_f_sky", d.catalog_f_sky + 0.25), ("has_niz_from_input", not d.has_niz_from_input)):
        o = copy.deepcopy(d)
        setattr(o, f, v)
        relation(d, o, False, f"densities with another {f}")
    if d.instrument_response:
        k = sorted(d.instrument_response)[pos % len(d.instrument_response)]
        o = copy.deepcopy(d)
        o.instrument_response[k] += 0.125
        relation(d, o, False, f"densities with another {k}")
    if not dc["evaluated"] and (not dc["raw"] or dc["n"] <= 2):   # splines are caches
        o = copy.deepcopy(d)
        o.setUp()
        relation(d, o, True, "density before and after preparing its splines")
    b = c21.make_bias(bc)
    if bc["evaluated"]:
        b.z_grid, b.b_i_z = np.linspace(0.1, 1, 5), c21.arr(bc["seed"] + 3, bc["n"], 5)
    explore(b, ["z_bin_edges", "z_grid", "b_i_z"], pos, "bias")
    o = copy.deepcopy(b)
    o.nuisance_parameters = dict(reversed(list(b.nuisance_parameters.items())))
    relation(b, o, True, "biases with the parameters in another order")
    k = sorted(b.nuisance_parameters)[pos % len(b.nuisance_parameters)]
    for what, fn in (("another value", lambda x: x.__setitem__(k, x[k] + 1e-9)), ("no value", lambda x: x.pop(k)), ("another name", lambda x: x.__setitem__("zz", x.pop(k)))):
        o = copy.deepcopy(b)
        fn(o.nuisance_parameters)
        relation(b, o, False, f"biases, {what} of {k}")
    for f, v in (("probe", "Other"), ("model_name", "another"), ("additional_parameters", {**b.additional_parameters, "extra": 1.0})):
        o = copy.deepcopy(b)
        setattr(o, f, v)
        relation(b, o, False, f"biases with another {f}")
    if bc["model"] in ("piecewise", "constant"):
        b.initBiasModel()
        o = copy.deepcopy(b)
        relation(b.model, o.model, True, "bias model and its copy")
        o.model.nuisance_parameters = {**b.nuisance_parameters, k: b.nuisance_parameters[k] + 1e-9}
        relation(b.model, o.model, False, f"bias models with another value of {k}")
        relation(b, o, True, "biases whose models (caches) differ")
        o.model = copy.deepcopy(b.model)
        o.model.cosmology = Cosmology(params=cosmo_params({"Omm": 0.3, "w0": -1.0, "wa": 0.0, "h": 0.7, "OmDE": 0.7}), flat=True, z_grid=np.linspace(0.1, 1, 4))
        relation(b.model, o.model, False, "bias models with and without a cosmology")
        for w, v in variants(b.model.z_bin_edges, pos):
            o = copy.deepcopy(b)
            o.model.z_bin_edges = v
            relation(b.model, o.model, False, f"bias models, edges: {w}")


@CHECK.prop(st.tuples(c21.wset((1, 3)), POS), quick=40, thorough=1200, rule="several spectra with kernels, or several multipoles")
def spectra(case, ctx):
    case, pos = {**case[0], "special": 0}, case[1]
    coll, ws = c21.make_collection(case)
    ctx.nontrivial(len(coll.cl_dict) > 1 and case["kernel"] or case["nl"] > 1)
    ctx.label(f"{len(coll.cl_dict)} spectra")
    twin, _ = c21.make_collection(case)
    relation(coll, twin, True, "collections of the same spectra")
    keys = list(coll.cl_dict)
    key = keys[pos % len(keys)]
    cl = coll.cl_dict[key]
    explore(cl, ["c_lij", "l_bin_centers", "l_bin_widths"], pos, key, twin.cl_dict[key])
    if case["nl"] > 1:
        for n in (1, case["nl"] - 1):
            o = copy.deepcopy(cl)
            for a in ("c_lij", "l_bin_centers", "l_bin_widths"):
                if getattr(cl, a) is not None:
                    setattr(o, a, getattr(cl, a)[:n])
            relation(cl, o, False, f"{key} with {case['nl']} and with its first {n} multipoles")
    # collections
    def with_dict(dct):
        c = AngularCoefficientsCollector()
        c.z_grid = coll.z_grid
        c.cl_dict = dct
        return c
    relation(coll, with_dict({k: twin.cl_dict[k] for k in reversed(keys)}), True, "collections with the spectra in another order")
    relation(coll, with_dict({k: twin.cl_dict[k] for k in keys if k != key}), False, f"collections with and without {key}")
    relation(coll, with_dict({(k if k != key else "Other_Other"): twin.cl_dict[k] for k in keys}), False, f"collections where {key} has another name")
    for w, v in variants(cl.c_lij, pos):
        o = copy.deepcopy(twin.cl_dict[key])
        o.c_lij = v
        relation(coll, with_dict({**twin.cl_dict, key: o}), False, f"collections, values of {key}: {w}")
    # weights and kernels
    for p, w in ws.items():
        explore(w, ["z_grid", "w_bin_z"], pos, f"weight function of {p}")
    if cl.kernel is not None:
        k = cl.kernel
        explore(k, ["k_ijz", "z_grid"], pos, f"kernel of {key}", twin.cl_dict[key].kernel)
        for side in ("weight1", "weight2"):
            w0 = getattr(k, side)
            for nm, v in variants(w0.w_bin_z, pos):
                o = copy.deepcopy(k)
                w = copy.deepcopy(w0)
                w.w_bin_z = v
                setattr(o, side, w)
                relation(k, o, False, f"kernel of {key}, {side}: {nm}")
            o = copy.deepcopy(k)
            setattr(o, side, None)
            relation(k, o, False, f"kernels of {key} with and without {side}")
        o = copy.deepcopy(k)
        o.probe2 = "Other"
        relation(k, o, False, f"kernels of {key} with another second probe")


@CHECK.prop(st.tuples(c21.delta_case(), POS), quick=60, thorough=1200, rule="several multipoles or bins")
def noisy_spectra(case, ctx):
    c, pos = case[0]["items"][0], case[1]
    d = c21.make_delta({**c}, "x")
    d.delta_c_lij = c21.arr(c["seed"], c["nl"], c["n1"], c["n2"])
    if d.noise_lij is not None:
        d.noise_lij = c21.arr(c["seed"] + 3, c["nl"], c["n1"], c["n2"])
    ctx.nontrivial(c["nl"] > 1 or c["n1"] > 1)
    explore(d, ["delta_c_lij", "noise_lij", "l_bin_centers", "l_bin_widths"], pos, "noisy spectrum")


@CHECK.prop(st.tuples(fl.fisher(min_c=2), POS), quick=60, thorough=1500, rule="several parameters")
def fisher_matrices(case, ctx):
    case, pos = case
    F = fl.build(case)
    m = fl.Model.of(case)
    ctx.nontrivial(len(m.params) > 1)
    relation(F, F.copy(), True, "matrix and its copy")
    P = list(m.params)
    k = pos % len(P)
    G = F.copy()
    G.fixParameters([P[k]])
    relation(F, G, False, f"matrices with {P[k]} free and fixed")
    from seyfert.fisher.fisher_matrix import FisherMatrix
    order = P[k:] + P[:k]
    G = FisherMatrix(matrix_df=F.matrix.loc[order, order].copy(), name=F.name, cosmological_parameters=set(F.cosmological_parameters), nuisance_parameters=set(F.nuisance_parameters))
    relation(F, G, True, "matrices with the parameters in another order")
    G = F.copy()
    G.name = "another"
    relation(F, G, False, "matrices of different names")
    i, j = P[pos % len(P)], P[(pos // 7) % len(P)]
    v = float(F.matrix.loc[i, j])
    M = F.matrix.copy()
    M.loc[i, j] = np.nextafter(v, 1e300)
    G = FisherMatrix(matrix_df=M, name=F.name, cosmological_parameters=set(F.cosmological_parameters), nuisance_parameters=set(F.nuisance_parameters))
    relation(F, G, False, f"matrices with the entry ({i}, {j}) an ulp apart")
    new = {P[k]: "zzz"}
    G = FisherMatrix(matrix_df=F.matrix.rename(index=new, columns=new), name=F.name, cosmological_parameters={new.get(x, x) for x in F.cosmological_parameters},
                     nuisance_parameters={new.get(x, x) for x in F.nuisance_parameters})
    relation(F, G, False, f"matrices where {P[k]} has another name")


if __name__ == "__main__":
    CHECK.main()

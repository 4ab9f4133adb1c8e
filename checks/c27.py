"""C27: external tables are imported without shuffling or losing data."""
import contextlib
import logging
import pickle
import re
import types
from coslib import *
import h5py
import pandas as pd
import parlib
from seyfert import VERSION
from seyfert.cosmology.c_ells import AngularCoefficient, AngularCoefficientsCollector
from seyfert.cosmology.parameter import PhysicalParametersCollection
from seyfert.file_io import ext_input, retro_comp
from seyfert.file_io.ext_input import ISTInputReader
from seyfert.fisher.fisher_matrix import FisherMatrix
from seyfert.numeric import general
from seyfert.utils import filesystem_utils as fsu
from seyfert.utils import ist_comparison, run_loader

CHECK = Check("C27", ["External power spectra list the redshifts in decreasing and the wavenumbers in increasing order, one redshift after the other, redshift zero included or not.",
                      "The parameters of external Fisher matrices have the IST names (Omegam, Omegab, Omegade, b1, b2, ...) or those of the package.", "Run folders carry the version of the code which made them in their name."])
RENAMED = {"Omegam": "Omm", "Omegab": "Omb", "Omegade": "OmDE"}
IST_COLS = ["Omegam", "Omegab", "Omegade", "w0", "wa", "h", "ns", "sigma8", "gamma"] + [f"b{i}" for i in range(1, 15)]
KINDS = {"WL": "[WL]", "GCph": "[GCph]", "GCsp": "[GCsp(Pk)]", "GCph_WL_XC": "[WL+GCph+XC(WL,GCph)]", "GCsp_GCph_WL_XC": "[WL+GCph+XC(WL,GCph)] + [GCsp(Pk)]"}


@contextlib.contextmanager
def logs_of(logger):
    """the messages which a logger emits"""
    lines, handler = [], logging.Handler()
    handler.emit = lambda r: lines.append(r.getMessage())
    level, off = logger.level, logging.root.manager.disable
    logger.addHandler(handler)
    logger.setLevel(logging.INFO)
    logging.disable(logging.NOTSET)
    try:
        yield lines
    finally:
        logger.removeHandler(handler)
        logger.setLevel(level)
        logging.disable(off)


def our(name):
    return RENAMED.get(name, f"bgph{int(name[1:]) - 1}" if re.fullmatch(r"b\d+", name) else name)


def spd(n, seed):
    a = lcg(seed, n * n).reshape(n, n)
    return a @ a.T + np.eye(n) * 0.5


def write_matrix(path, names, m, fmt="%.17g", sep=" "):
    path.write_text(sep.join(names) + "\n" + "\n".join(sep.join(fmt % x for x in row) for row in m) + "\n")


@CHECK.prop(st.fixed_dictionaries({"cols": st.lists(st.sampled_from(IST_COLS), unique=True, min_size=1, max_size=14), "seed": st.integers(0, 10 ** 6), "kind": st.sampled_from([*KINDS, "other"]), "suffix": st.sampled_from(["w0wa_flat_optimistic", "flat_pessimistic_3"]),
                                   "fmt": st.sampled_from(["%.17g", "%.10e", "%25.12f"]), "sep": st.sampled_from([" ", "   ", "\t", " \t "]), "name": st.booleans(), "codes": st.lists(st.sampled_from(["AB", "CD", "EF", "GH"]), unique=True, min_size=1), "flat": st.booleans(),
                                   "scen": st.sampled_from(["optimistic", "pessimistic"]), "cut": st.booleans(), "nuis": st.booleans()}), quick=150, thorough=2500, rule="several parameters, some of which are renamed")
def fishers(case, ctx):
    tmp = ctx.tmp()
    cols, n = case["cols"], len(case["cols"])
    m = spd(n, case["seed"]) * 10.0 ** (case["seed"] % 7)
    ctx.nontrivial(n > 2 and any(our(c) != c for c in cols))
    f = tmp / (f"EuclidISTF_{case['kind']}_{case['suffix']}.txt" if case["kind"] != "other" else "my fisher.txt")
    write_matrix(f, cols, m, case["fmt"], case["sep"])
    name, df = ISTInputReader.readISTFisherMatrixFile(f)
    eq(name, KINDS.get(case["kind"]), "name of the matrix")

    def same(df, m, cols, what):
        eq(sorted(df.index), sorted(map(our, cols)), f"parameters of {what}")
        eq(list(df.columns), list(df.index), f"labels of {what}")
        for a, ca in enumerate(cols):
            for b, cb in enumerate(cols):
                close(df.loc[our(ca), our(cb)], m[a, b], f"{what} ({ca}, {cb})", rtol=2e-10, atol=2e-12)
    same(df, m, cols, "the matrix")
    eq(list(df.index), sorted(df.index), "order of the parameters")
    if case["cut"] and n > 1:
        write_matrix(tmp / "short.txt", cols, m[:-1])
        raises(Exception, lambda: ISTInputReader.readISTFisherMatrixFile(tmp / "short.txt"), "a matrix without its last row")
    labels = set(map(our, cols))
    nuis = {x for x in labels if x.startswith("bg")} if case["nuis"] else set()
    F = FisherMatrix.from_ISTfile(f, name="given" if case["name"] else None, cosmological_parameters=labels - nuis if case["nuis"] else None, nuisance_parameters=nuis if case["nuis"] else None)
    same(F.matrix, m, cols, "the Fisher matrix")
    eq((F.name, set(F.cosmological_parameters), set(F.nuisance_parameters)), ("given" if case["name"] else name, labels - nuis, nuis), "name and parameters")
    # several codes
    d = tmp / "codes" / ("Flat" if case["flat"] else "NonFlat") / case["scen"]
    d.mkdir(parents=True)
    legend = {c: f"code {c}" for c in ["AB", "CD", "EF", "GH"]}
    (tmp / "codes/legend.json").write_text(json.dumps(legend))
    other = tmp / "codes" / ("NonFlat" if case["flat"] else "Flat") / case["scen"]
    other.mkdir(parents=True)
    write_matrix(other / "fisher_matrices_results_baseline_GR_AB_x.txt", cols, m * 1000)
    mats = {}
    for k, c in enumerate(case["codes"]):
        mats[f"code {c}"] = m * (k + 2) + np.diag(lcg(case["seed"] + k, n, 0, 1))
        write_matrix(d / f"fisher_matrices_results_baseline_GR_{c}_GCph.txt", cols, mats[f"code {c}"])
    got = ist_comparison.read_ISTGCphFishers(tmp / "codes", case["flat"], case["scen"])
    eq(set(got), set(mats), "codes")
    for k in mats:
        same(got[k], mats[k], cols, k)
    errs = ist_comparison.compute_errs(got)
    deltas = ist_comparison.compute_deltas_errs(errs)
    for kind in ("marg", "unmarg"):
        want = {k: np.sqrt(np.diag(np.linalg.inv(v))) if kind == "marg" else 1 / np.sqrt(np.diag(v)) for k, v in mats.items()}
        arr = np.array(list(want.values()))
        for k, v in want.items():
            for x, c in zip(v, cols):
                close(errs.loc[(kind, k), our(c)], x, f"{kind} error of {c}", rtol=1e-8)
        for ref, fn in (("mean", np.mean), ("median", np.median)):
            mid = fn(arr, axis=0)
            for k, v in want.items():
                for x, c, r in zip(v, cols, mid):
                    close(deltas.loc[(ref, kind, k), our(c)], 100 * (x - r) / r, f"deviation from the {ref}", rtol=1e-6, atol=1e-9)


@CHECK.prop(st.fixed_dictionaries({"cosmo": st.lists(st.sampled_from(["Omm", "Omb", "OmDE", "w0", "wa", "h", "ns"]), unique=True, max_size=4), "nb": st.integers(0, 4), "first": st.sampled_from([0, 0, 8, 9]), "seed": st.integers(0, 10 ** 6), "s8": nice(0.5, 1.2, 40), "b": vec(4, nice(0.5, 3, 60)),
                                   "order": st.integers(0, 10 ** 6)}), quick=25, thorough=400, rule="two or more bias parameters")
def reparametrised(case, ctx):
    """Fisher matrices in the basis of the products of bias and sigma8"""
    bias = [f"bgph{case['first'] + i}" for i in range(case["nb"])]
    names = case["cosmo"] + bias + ["sigma8"]
    names = [names[i] for i in np.argsort(lcg(case["order"], len(names)))]
    n = len(names)
    ctx.nontrivial(case["nb"] > 1)
    F = pd.DataFrame(spd(n, case["seed"]), index=names, columns=names)
    fid = {**{p: 0.5 for p in case["cosmo"]}, **dict(zip(bias, case["b"])), "sigma8": case["s8"]}
    if len(case["cosmo"]) + len(bias) == 0:
        return
    # J = d(old)/d(new) at fixed other new parameters
    new = [f"{x}_sigma8" if x in bias else x for x in names]
    J = np.eye(n)
    s = names.index("sigma8")
    for i, x in enumerate(names):
        if x in bias:
            J[i, i] = 1 / case["s8"]
            J[i, s] = -fid[x] / case["s8"]
    want = pd.DataFrame(J.T @ F.to_numpy() @ J, index=new, columns=new)
    theta, thetap, thetapp, thetaf, ft = ist_comparison.get_params_bases(F, fid)
    F1 = ist_comparison.T1(F, theta, thetap, ft)
    for a in new:
        for b in new:
            close(F1.loc[a, b], want.loc[a, b], f"transformed matrix ({a}, {b})", rtol=1e-8, atol=1e-8)
    rest = [x for x in new if x != "sigma8"]
    F2 = ist_comparison.apply_T1_remove_sigma8(F, fid)
    eq(sorted(F2.index), sorted(rest), "parameters without sigma8")
    for a in rest:
        for b in rest:
            close(F2.loc[a, b], want.loc[a, b], f"matrix without sigma8 ({a}, {b})", rtol=1e-8, atol=1e-8)
    if case["cosmo"]:
        F3 = ist_comparison.apply_T1_remove_sigma8_then_T2(F, fid)
        final = [x for x in names if x not in bias]
        K = np.array([[fid[x[:-7]] if x.endswith("_sigma8") and y == "sigma8" else float(x == y) for y in final] for x in rest])
        wf = pd.DataFrame(K.T @ want.loc[rest, rest].to_numpy() @ K, index=final, columns=final)
        eq(sorted(F3.index), sorted(final), "parameters at the end")
        for a in final:
            for b in final:
                close(F3.loc[a, b], wf.loc[a, b], f"matrix at the end ({a}, {b})", rtol=1e-8, atol=1e-8)


# ---------------------------------------------------------------- power spectra
IST_PAR = {"Ob": "Omb", "Ode": "OmDE", "Om": "Omm", "h": "h", "ns": "ns", "s8": "sigma8", "w0": "w0", "wa": "wa"}
EPS = ["6p3E-3", "1p3E-2", "1p9E-2", "2p5E-2", "3p8E-2", "5p0E-2", "1p0E-1"]
EPSV = [0.00625, 0.0125, 0.01875, 0.025, 0.0375, 0.05, 0.1]
VARIED = st.tuples(st.sampled_from(list(IST_PAR)), st.sampled_from(["mn", "pl"]), st.integers(0, 6))


def ist_pars(flat, omm=0.32, h=0.67):
    vals = {"Omm": omm, "OmDE": round(1 - omm, 2), "Omb": 0.05, "w0": -1.0, "wa": 0.0, "h": h, "ns": 0.96, "sigma8": 0.8}
    return PhysicalParametersCollection(data_dict={n: PhysicalParameter(name=n, fiducial=v, kind=parlib.C, is_free_parameter=not (flat and n == "OmDE")) for n, v in vals.items()}, base_stem_disps=[0.01], is_universe_flat=flat), vals


def varied(vals, name, eps, flat):
    out = dict(vals)
    out[name] = vals[name] * (1 + eps) if vals[name] != 0 else eps
    if flat and name == "Omm":
        out["OmDE"] = 1 - out["Omm"]
    return out


@CHECK.prop(st.fixed_dictionaries({"jobs": st.lists(VARIED, unique=True, max_size=7), "z": st.lists(st.integers(0, 60), unique=True, min_size=2, max_size=7), "k": st.lists(st.integers(1, 90), unique=True, min_size=1, max_size=6), "flat": st.booleans(), "h": st.sampled_from([0.67, 0.7, 0.5]), "seed": st.integers(0, 10 ** 6),
                                   "model": st.sampled_from(["CPL", "w0waCDM"]), "sub": st.booleans(), "trunc": st.booleans(), "fine": st.booleans()}), quick=60, thorough=1000, rule="several varied cosmologies, redshift zero among the redshifts")
def spectra(case, ctx):
    tmp = ctx.tmp()
    flat = case["flat"]
    pars, vals = ist_pars(flat, h=case["h"])
    jobs = [j for j in case["jobs"] if not (flat and j[0] == "Ode")]
    z = np.array(sorted(case["z"])) / (7310 if case["fine"] else 20)
    if z[-1] == 0 or not np.any(z > 0):
        return
    k = np.array(sorted(case["k"])) / (9973 if case["fine"] else 100)
    ctx.nontrivial(len(jobs) > 1 and z[0] == 0)
    src = tmp / "src"
    src.mkdir()
    files, tables = [], {}
    for q, j in enumerate([None] + jobs):
        name = "pkz-Fiducial.txt" if j is None else f"pkz-{j[0]}_{j[1]}_eps_{EPS[j[2]]}.txt"
        d = src if j is None else src / (f"{j[0]}_{j[1]}" if case["sub"] else f"dir{q}")
        d.mkdir(exist_ok=True)
        lin = lcg(case["seed"] + q, len(z) * len(k), 1, 2).reshape(len(z), len(k)) * 100
        non = lin * lcg(case["seed"] + q + 50, len(z) * len(k), 1, 3).reshape(len(z), len(k))
        with open(d / name, "w") as f:
            for a in range(len(z))[::-1]:
                for b in range(len(k)):
                    f.write(f"  {z[a]:.10e}  {k[b]:.10e}   {lin[a, b]!r} {non[a, b]!r}\n")
        tables[("central", 0) if j is None else (IST_PAR[j[0]], (j[2] + 1) * (1 if j[1] == "pl" else -1))] = (lin, non, vals if j is None else varied(vals, IST_PAR[j[0]], EPSV[j[2]] * (1 if j[1] == "pl" else -1), flat))
        files.append(d / name)
    zz, kk, l, nl = ISTInputReader.readISTPowerSpectrumTextFile(files[0])
    lin, non, _ = tables[("central", 0)]
    close(zz, z, "redshifts of the file", rtol=1e-10)
    close(kk, k, "wavenumbers of the file", rtol=1e-10)
    close(l, lin, "linear spectrum of the file", rtol=1e-14)
    close(nl, non, "nonlinear spectrum of the file", rtol=1e-14)
    if case["trunc"] and len(k) * len(z) > 1 and len(k) > 1:
        t = tmp / "short.txt"
        t.write_text("\n".join(files[0].read_text().splitlines()[:-1]) + "\n")
        raises(Exception, lambda: ISTInputReader.readISTPowerSpectrumTextFile(t), "a table without its last line")
    reader = ISTInputReader(pars)
    for name, p in pars.items():
        close(p.fiducial, vals[name], "fiducial", rtol=1e-14)
    reader.convertISTPowerSpectra(src, tmp / "out", flat=flat, cosmo_model=case["model"])
    (out,) = [p for p in tmp.iterdir() if p.name.startswith("out_")]
    eq(sorted(p.name for p in out.iterdir()), sorted(fsu.get_cosmology_jobdir_name(*t) for t in tables), "cosmologies which are written")
    pos = z > 0
    for (dvar, step), (lin, non, now) in tables.items():
        c = Cosmology.fromHDF5(out / fsu.get_cosmology_jobdir_name(dvar, step) / "p_mm.h5")
        p, h = c.power_spectrum, now["h"]
        what = f"({dvar}, {step})"
        close(p.k_grid, k * h, f"wavenumbers of {what}", rtol=1e-9)
        close(p.z_grid, z[pos], f"redshifts of {what}", rtol=1e-9)
        close(c.z_grid, z[pos], f"redshifts of {what}", rtol=1e-9)
        close(p.lin_p_mm_z_k, lin[pos] / h ** 3, f"linear spectrum of {what}", rtol=1e-9)
        close(p.nonlin_p_mm_z_k, non[pos] / h ** 3, f"nonlinear spectrum of {what}", rtol=1e-9)
        for n, v in now.items():
            close(c.params[n].current_value, v, f"{n} of {what}", rtol=1e-12, atol=1e-15)
        eq((bool(c.is_flat), c.model_name), (flat, case["model"]), "model")


# ---------------------------------------------------------------- angular spectra
def cl_file(path, ells, cl, base, symmetric, swap, header, wrap, seed):
    """one column per pair of bins"""
    n1, n2 = cl.shape[1:]
    pairs = [(i, j) for i in range(n1) for j in range(n2) if not symmetric or i <= j]
    if seed % 3 == 0:
        pairs = pairs[::-1]
    words = [header.format(i=(j if swap else i) + base, j=(i if swap else j) + base) for i, j in pairs]
    lines = ["# ell"] if wrap else []
    step = 5 if wrap else len(words)
    for a in range(0, len(words), step):
        lines.append("# " + " ".join(words[a:a + step]))
    path.parent.mkdir(parents=True, exist_ok=True)
    path.write_text("\n".join(lines) + "\n" + "\n".join(" ".join(repr(float(x)) for x in [l] + [cl[a, i, j] for i, j in pairs]) for a, l in enumerate(ells)) + "\n")


def made_up(seed, n, n1, n2, symmetric):
    c = lcg(seed, n * n1 * n2).reshape(n, n1, n2)
    return (c + c.transpose(0, 2, 1)) if symmetric else c


@CHECK.prop(st.fixed_dictionaries({"n": st.integers(2, 5), "n1": st.integers(1, 12), "n2": st.integers(1, 12), "sym": st.booleans(), "base": st.integers(0, 1), "swap": st.booleans(), "header": st.sampled_from(["{i}-{j}", "C_{i}_{j}", "({i},{j})"]), "wrap": st.booleans(), "seed": st.integers(0, 10 ** 6)}),
            quick=150, thorough=2500, rule="several bins of both probes")
def angular(case, ctx):
    n1, n2 = case["n1"], case["n2"]
    if case["sym"]:
        n2 = n1
    elif n1 < n2:
        n1, n2 = n2, n1
    ctx.nontrivial(n1 > 1 and n2 > 1)
    cl = made_up(case["seed"], case["n"], n1, n2, case["sym"])
    ells = np.arange(case["n"]) * 17.5 + 10
    f = ctx.tmp() / "c.dat"
    cl_file(f, ells, cl, case["base"], case["sym"], case["swap"] and not case["sym"] and n1 > n2, case["header"], case["wrap"], case["seed"])
    l, c = ISTInputReader().readSCameraClFile(f, symmetric=case["sym"])
    close(l, ells, "multipoles", rtol=1e-14)
    eq(np.shape(c), cl.shape, "bins")
    same_bits(np.ascontiguousarray(c), cl, "spectra")


@CHECK.prop(st.fixed_dictionaries({"jobs": st.lists(VARIED, unique=True, max_size=2), "seed": st.integers(0, 10 ** 6), "base": st.integers(0, 1), "ders": st.lists(st.sampled_from(list(IST_PAR)), unique=True, max_size=3), "probes": st.lists(st.sampled_from(["GCph", "GCsp", "XC"]), unique=True, min_size=1),
                                   "n": st.integers(2, 3), "bad": st.sampled_from([None, None, "missing", "ells"]), "xcswap": st.booleans()}), quick=12, thorough=200, rule="varied cosmologies and derivatives")
def angular_folders(case, ctx):
    tmp = ctx.tmp()
    pars, vals = ist_pars(False)
    ctx.nontrivial(len(case["jobs"]) > 0 and len(case["ders"]) > 0)
    shapes = {"GCph": (10, 10), "GCsp": (4, 4), "XC": (10, 4)}
    ells = np.arange(case["n"]) * 20.0 + 10
    tables = {}
    jobs = [None] + case["jobs"]
    for q, j in enumerate(jobs):
        key = ("central", 0) if j is None else (IST_PAR[j[0]], (j[2] + 1) * (1 if j[1] == "pl" else -1))
        tables[key] = {}
        for i, (p, (n1, n2)) in enumerate(shapes.items()):
            cl = made_up(case["seed"] + 7 * q + i, case["n"], n1, n2, p != "XC")
            last = j is jobs[-1] and p == "XC"
            if last and case["bad"] == "missing":
                continue
            name = f"Cij_{p}-fiducial.dat" if j is None else f"Cij_{p}_{j[0]}_{j[1]}_eps_{EPS[j[2]]}.dat"
            e = np.append(ells, 999.0) if last and case["bad"] == "ells" else ells
            if len(e) != len(ells):
                cl = made_up(case["seed"], len(e), n1, n2, False)
            cl_file(tmp / "src" / p / name, e, cl, case["base"], p != "XC", p == "XC" and case["xcswap"], "{i}-{j}", False, case["seed"] + i)
            tables[key][p] = cl
    reader = ISTInputReader(pars)
    if case["bad"]:
        raises(Exception, lambda: reader.convertSCameraDerivativesInput(tmp / "src", tmp / "out"), f"inconsistent files ({case['bad']})")
    else:
        reader.convertSCameraDerivativesInput(tmp / "src", tmp / "out")
        (out,) = [p for p in tmp.iterdir() if p.name.startswith("out_converted")]
        eq(sorted(p.name for p in out.iterdir()), sorted(fsu.get_cosmology_jobdir_name(*t) for t in tables), "cosmologies which are written")
        for key, cls in tables.items():
            (f,) = (out / fsu.get_cosmology_jobdir_name(*key)).iterdir()
            got = AngularCoefficientsCollector.fromHDF5(f)
            for p, cl in cls.items():
                p1, p2 = {"GCph": ("PhotometricGalaxy",) * 2, "GCsp": ("SpectroscopicGalaxy",) * 2, "XC": ("PhotometricGalaxy", "SpectroscopicGalaxy")}[p]
                g = got.cl_dict[f"{p1}_{p2}"]
                same_bits(np.ascontiguousarray(g.c_lij), cl, f"{p} spectra of {key}")
                close(g.l_bin_centers, ells, "multipoles", rtol=1e-14)
    want = {}
    for q, d in enumerate(case["ders"]):
        for i, p in enumerate(case["probes"]):
            n1, n2 = shapes[p]
            cl = made_up(case["seed"] + 100 + 11 * q + i, case["n"], n1, n2, p != "XC")
            cl_file(tmp / "ders" / p / f"dCijGGd{d}_{p}-{d}-Stef.dat", ells, cl, case["base"], p != "XC", p == "XC" and case["xcswap"], "{i}-{j}", False, case["seed"])
            k = {"GCph": "PhotometricGalaxy_PhotometricGalaxy", "GCsp": "SpectroscopicGalaxy_SpectroscopicGalaxy", "XC": "PhotometricGalaxy_SpectroscopicGalaxy"}[p]
            want.setdefault(IST_PAR[d], {})[k] = cl
    if want:
        got = reader.readSCameraClDerivatives(tmp / "ders")
        eq({k: set(v) for k, v in got.items()}, {k: set(v) for k, v in want.items()}, "derivatives")
        for k, v in want.items():
            for p, cl in v.items():
                same_bits(np.ascontiguousarray(got[k][p]), cl, f"derivatives with respect to {k} of {p}")


# ---------------------------------------------------------------- files and folders of other versions
def arr(seed, *shape):
    return lcg(seed, int(np.prod(shape)), 0.5, 2).reshape(shape)


PAIRS = [("PhotometricGalaxy", "PhotometricGalaxy"), ("PhotometricGalaxy", "SpectroscopicGalaxy"), ("SpectroscopicGalaxy", "SpectroscopicGalaxy"), ("Lensing", "PhotometricGalaxy"), ("Lensing", "Lensing")]
VER = st.sampled_from(["1.0.0", "1.0.4", "1.0.12", "1.1.0", "1.1.1", "1.2.0", "1.2.10", "1.3.8", VERSION, "1.10.3", "2.0.0", "10.0.1", "1.3.0dev", "1.0.4dev"])
FILES = {"nz": st.integers(1, 5), "nk": st.integers(1, 4), "nl": st.integers(1, 4), "nb": st.tuples(st.integers(1, 4), st.integers(1, 4), st.integers(1, 4)), "seed": st.integers(0, 10 ** 6), "pairs": st.lists(st.sampled_from(PAIRS), unique=True, min_size=1), "growth": st.booleans(), "transfer": st.booleans(),
         "pars": st.dictionaries(st.sampled_from(["Omm", "w0", "h", "ns"]), st.tuples(nice(-2, 0.99, 40), nice(-2, 0.99, 40), st.booleans()), min_size=1)}


def bins(case, p):
    return case["nb"][["PhotometricGalaxy", "SpectroscopicGalaxy", "Lensing"].index(p)]


def old_version(v):
    return [int(re.match(r"\d+", x).group()) for x in v.split(".")] < [1, 1, 0]


def write_cosmology(f, case, seed, version):
    nz, nk = case["nz"], case["nk"]
    d = {"z": np.cumsum(arr(seed, nz)), "E": arr(seed + 1, nz), "r": arr(seed + 2, nz), "k": np.cumsum(arr(seed + 3, nk)), "lin": arr(seed + 4, nz, nk), "non": arr(seed + 5, nz, nk), "D": arr(seed + 6, nz), "T": arr(seed + 7, nk)}
    if old_version(version):
        with h5py.File(f, "w") as hf:
            hf["/cosmology/dimensionless_hubble_parameter"], hf["/cosmology/dimensionless_comoving_distance"], hf["/cosmology/z_array"] = d["E"], d["r"], d["z"]
            hf["/power_spectrum/k_array"], hf["/power_spectrum/p_mm_values/lin_p_mm_z_k"], hf["/power_spectrum/p_mm_values/nonlin_p_mm_z_k"] = d["k"], d["lin"], d["non"]
            if case["growth"]:
                hf["growth_factor_z"] = d["D"]
            if case["transfer"]:
                hf["transfer_function"] = d["T"]
    elif version == "1.1.0":
        with h5py.File(f, "w") as hf:
            hf["cosmology/z_grid"], hf["cosmology/dimensionless_hubble_array"], hf["cosmology/dimensionless_comoving_distance_array"] = d["z"], d["E"], d["r"]
            for n, (fid, cur, free) in case["pars"].items():
                hf.create_group(f"cosmology/cosmological_parameters/{n}").attrs.update({"fiducial": fid, "current": cur, "is_present": free})
    else:
        c = Cosmology(params={n: PhysicalParameter(name=n, kind=parlib.C, fiducial=fid, current_value=cur, is_free_parameter=free) for n, (fid, cur, free) in case["pars"].items()}, flat=False, z_grid=d["z"], model_name="CPL")
        c.dimensionless_hubble_array, c.dimensionless_comoving_distance_array, c.growth_factor_z = d["E"], d["r"], d["D"]
        p = c.power_spectrum = PowerSpectrum()
        p.z_grid, p.k_grid, p.lin_p_mm_z_k, p.nonlin_p_mm_z_k = d["z"], d["k"], d["lin"], d["non"]
        c.saveToHDF5(f)
    return d


def same_cosmology(c, d, case, version, power):
    same_bits(c.z_grid, d["z"], "redshifts")
    same_bits(c.dimensionless_hubble_array, d["E"], "expansion rate")
    same_bits(c.dimensionless_comoving_distance_array, d["r"], "distances")
    if old_version(version):
        p = c.power_spectrum
        for g, k in ((p.z_grid, "z"), (p.k_grid, "k"), (p.lin_p_mm_z_k, "lin"), (p.nonlin_p_mm_z_k, "non")):
            same_bits(g, d[k], f"power spectrum ({k})")
        for g, k, there in ((c.growth_factor_z, "D", case["growth"]), (p.transfer_function, "T", case["transfer"])):
            if there:
                check(g is not None, f"{'growth factor' if k == 'D' else 'transfer function'} of the file is lost")
                same_bits(g, d[k], "growth factor" if k == "D" else "transfer function")
            else:
                check(g is None, "nothing is made up")
    else:
        eq({n: (float(p.fiducial), float(p.current_value), bool(p.is_free_parameter)) for n, p in c.params.items()}, {n: (float(a), float(b), free) for n, (a, b, free) in case["pars"].items()}, "parameters")
        if version != "1.1.0":
            same_bits(c.growth_factor_z, d["D"], "growth factor")
            eq(c.power_spectrum is not None, power, "power spectrum loaded")


def write_cls(f, case, seed, version):
    out = {}
    nl, nz = case["nl"], case["nz"]
    probes = sorted({p for pr in case["pairs"] for p in pr})
    w = {p: arr(seed + 20 + i, bins(case, p), nz) for i, p in enumerate(probes)}
    nn = {p: arr(seed + 30 + i, bins(case, p), nz) for i, p in enumerate(probes)}
    for i, (a, b) in enumerate(case["pairs"]):
        out[f"{a}_{b}"] = {"c_lij": arr(seed + 40 + i, nl, bins(case, a), bins(case, b)), "l": np.cumsum(arr(seed + 50 + i, nl)), "dl": arr(seed + 60 + i, nl), "k": arr(seed + 70 + i, bins(case, a), bins(case, b), nz), "w": (w[a], w[b]), "n": (nn[a], nn[b])}
    if old_version(version):
        with h5py.File(f, "w") as hf:
            for p in probes:
                hf[f"density_functions/{p}/norm_density_i_z"], hf[f"weight_functions/{p}"] = nn[p], w[p]
            for k, d in out.items():
                hf[f"cls/{k}/c_lij"], hf[f"cls/{k}/l_bin_centers"], hf[f"cls/{k}/l_bin_widths"], hf[f"kernels/{k}/k_ijz"] = d["c_lij"], d["l"], d["dl"], d["k"]
    else:
        coll = AngularCoefficientsCollector()
        from seyfert.cosmology import kernel_functions as kfs, weight_functions as wfs
        ws = {}
        for p in probes:
            ws[p] = wfs.weight_function_for_probe(probe=p)
            ws[p].z_grid = np.cumsum(arr(seed, nz))
            ws[p].w_bin_z = w[p]
            ws[p].density = RedshiftDensity(probe=p)
            den = ws[p].density
            den.z_grid, den.norm_density_iz, den.has_niz_from_input, den.catalog_f_sky = ws[p].z_grid, nn[p], True, 1.0
            den.input_z_domain, den.z_bin_edges, den.input_n_iz = ws[p].z_grid, np.arange(bins(case, p) + 1.0), nn[p]
        for k, d in out.items():
            a, b = k.split("_")
            cl = AngularCoefficient(probe1=a, probe2=b)
            cl.c_lij, cl.l_bin_centers, cl.l_bin_widths = d["c_lij"], d["l"], d["dl"]
            cl.kernel = kfs.KernelFunction(weight1=ws[a], weight2=ws[b])
            cl.kernel.k_ijz, cl.kernel.z_grid = d["k"], ws[a].z_grid
            coll.cl_dict[k] = cl
            coll.weight_dict.update({a: ws[a], b: ws[b]})
        coll.z_grid = np.cumsum(arr(seed, nz))
        coll.saveToHDF5(f)
    return out


def same_cls(coll, data, what, full):
    eq(set(coll.cl_dict), set(data), f"spectra of {what}")
    for k, d in data.items():
        cl = coll.cl_dict[k]
        eq((cl.probe1, cl.probe2), tuple(k.split("_")), "probes")
        same_bits(cl.c_lij, d["c_lij"], f"{k} of {what}")
        same_bits(cl.l_bin_centers, d["l"], "multipoles")
        same_bits(cl.l_bin_widths, d["dl"], "multipole widths")
        if full:
            same_bits(cl.kernel.k_ijz, d["k"], "kernel")
            for g, w, n in zip((cl.kernel.weight1, cl.kernel.weight2), d["w"], d["n"]):
                same_bits(g.w_bin_z, w, "weight")
                same_bits(g.density.norm_density_iz, n, "density")


def write_ders(f, case, seed, old):
    out = {}
    with h5py.File(f, "w") as hf:
        for i, (a, b) in enumerate(case["pairs"]):
            d = out[f"{a}_{b}"] = arr(seed + 80 + i, case["nl"], bins(case, a), bins(case, b))
            if old:
                hf[f"{a}_{b}"] = d
            else:
                g = hf.create_group(f"{a}_{b}")
                g["dc_lij"] = d
                g["l_bin_centers"] = np.arange(case["nl"])
    return out


@CHECK.prop(st.fixed_dictionaries({**FILES, "version": VER, "power": st.booleans()}), quick=120, thorough=2000, rule="a file of an older version, or several spectra")
def versions(case, ctx):
    tmp = ctx.tmp()
    v = case["version"]
    ctx.nontrivial(old_version(v) or len(case["pairs"]) > 1)
    ctx.label("before 1.1" if old_version(v) else "1.1.0" if v == "1.1.0" else "later")
    d = write_cosmology(tmp / "c.h5", case, case["seed"], v)
    same_cosmology(retro_comp.read_cosmo_file(tmp / "c.h5", version=v, load_power_spectrum=case["power"]), d, case, v, case["power"])
    data = write_cls(tmp / "cls.h5", case, case["seed"], v)
    same_cls(retro_comp.read_cls_file(tmp / "cls.h5", version=v), data, f"a file of version {v}", True)
    ders = write_ders(tmp / "d.h5", case, case["seed"], case["power"])
    got = retro_comp.read_dcl_file(tmp / "d.h5")
    eq(set(got), set(ders), "derivatives")
    for k in ders:
        same_bits(got[k], ders[k], f"derivative {k}")


@CHECK.prop(st.fixed_dictionaries({**FILES, "versions": st.tuples(VER, VER), "id": st.sampled_from(["run", "my run", "ph_12_sp_bins", "x.y"]), "jobs": st.lists(st.tuples(st.sampled_from(["Omm", "w0", "bgph1"]), st.integers(-3, 3).filter(bool)), unique=True, max_size=4), "pmm": st.booleans(), "cosmo": st.booleans(),
                                   "ders": st.lists(st.sampled_from(["Omm", "w0", "bgph1"]), unique=True), "fish": st.lists(st.sampled_from(["F1", "F2", "[WL]"]), unique=True), "one": st.booleans(), "meta": st.booleans(), "drop": st.booleans(), "ratio": st.booleans(), "nuisance": st.lists(st.sampled_from(["bgph1", "bgsp2", "aIA", "etaIA"]), unique=True, max_size=3), "scale": st.sampled_from([1e-9, 1e-7, 1e-6, 3e-6, 1e-4, 1.0])}), quick=50, thorough=800, rule="several jobs of a run")
def runs(case, ctx):
    tmp = ctx.tmp()
    ctx.nontrivial(len(case["jobs"]) > 1)
    loaders, stored = [], []
    names = ["w0", *case["nuisance"], "Omm"]
    for r in (0, 1):
        v = case["versions"][r]
        run = tmp / str(r) / f"{case['id']}_{v}_2021-03-07T19-23-5{r}"
        run.mkdir(parents=True)
        seed = case["seed"] + 1000 * r
        jobs = case["jobs"][:-1] if r and case["drop"] else case["jobs"]
        s = {"pmms": {}, "cosmos": {}, "cls": {}, "dcls": {}, "fishers": {}}
        if case["meta"]:
            (run / "run_metadata.json").write_text(json.dumps({"run": r}))
        if case["pmm"]:
            for i, (p, k) in enumerate(jobs):
                d = run / "PowerSpectrum" / fsu.get_cosmology_jobdir_name(p, k)
                d.mkdir(parents=True)
                s["pmms"][f"{p}_{k}"] = write_cosmology(d / "p_mm.h5", case, seed + 100 * i, "1.3.0")
        (run / "Angular").mkdir()
        for i, (p, k) in enumerate(jobs):
            d = run / "Angular" / fsu.get_cosmology_jobdir_name(p, k)
            d.mkdir(parents=True)
            if case["cosmo"]:
                s["cosmos"][f"{p}_{k}"] = write_cosmology(d / "cosmology.h5", case, seed + 100 * i, v)
            s["cls"][f"{p}_{k}"] = write_cls(d / "cls.h5", case, seed + 100 * i, v)
        (run / "Derivative").mkdir()
        for i, p in enumerate(case["ders"]):
            d = run / "Derivative" / fsu.get_derivative_jobdir_name_from_dvar(p)
            d.mkdir()
            s["dcls"][p] = write_ders(d / "cls_ders.h5", case, seed + 100 * i, v < "1.2")
        (run / "fisher_matrices").mkdir()
        for i, n in enumerate(case["fish"]):
            m = spd(len(names), case["seed"] + i)
            if r:
                m = m + case["scale"] * spd(len(names), seed + i)
            s["fishers"][n] = m
            FisherMatrix(matrix_df=pd.DataFrame(m, index=names, columns=names), name=n, cosmological_parameters={"w0", "Omm"}, nuisance_parameters=set(case["nuisance"])).writeToFile(outfile=run / "fisher_matrices" / f"f{i}.hdf5")
        L = run_loader.RunLoader(run)
        L.loadMetadata()
        want = re.match(r"(\d+\.\d+\.\d+)", v).group(1)
        eq(L.version, want, f"version of {run.name}")
        eq(L.metadata, {"run": r} if case["meta"] else None, "metadata")
        L.loadPowerSpectra()
        if case["one"] and jobs:
            L.loadCosmologiesAndCls({jobs[0][0]})
            for k in ("cosmos", "cls"):
                s[k] = {j: x for j, x in s[k].items() if j.rsplit("_", 1)[0] == jobs[0][0]}
            raises(Exception, lambda: L.loadCosmologiesAndCls({"unknown"}), "a parameter without jobs")
        else:
            L.loadCosmologiesAndCls()
        L.loadClDerivatives()
        L.loadFishers()
        for k in ("pmms", "cosmos", "cls", "dcls", "fishers"):
            eq(set(getattr(L, k)), set(s[k]), f"{k} of the run")
        eq(set(L.cosmo_keys), set(s["cls"]), "cosmologies of the run")
        for j, d in s["pmms"].items():
            p = L.pmms[j]
            for g, k in ((p.z_grid, "z"), (p.k_grid, "k"), (p.lin_p_mm_z_k, "lin"), (p.nonlin_p_mm_z_k, "non")):
                same_bits(g, d[k], f"power spectrum of {j}")
        for j, d in s["cosmos"].items():
            same_cosmology(L.cosmos[j], d, case, v, False)
        for j, d in s["cls"].items():
            same_cls(L.cls[j], d, j, True)
        for p, d in s["dcls"].items():
            short = {f"C_{SHORT[a]}{SHORT[b]}": x for k, x in d.items() for a, b in [k.split("_")]}
            got = {re.sub("^C_", "", str(k)): x for k, x in L.dcls[p].items()}
            eq(set(got), {k[2:] for k in short}, "derivatives of the run")
            for k, x in short.items():
                same_bits(got[k[2:]], x, f"derivative of {k} with respect to {p}")
        for n, m in s["fishers"].items():
            F = L.fishers[n]
            eq(list(F.matrix.index), sorted(names), "parameters of the loaded matrix")
            close(F.matrix.loc[names, names].to_numpy(), m, f"Fisher matrix {n}", rtol=1e-12)
            close(F.inverse.loc[names, names].to_numpy(), np.linalg.inv(m), f"inverse of {n}", rtol=1e-7)
        loaders.append(L)
        stored.append(s)
    a, b = stored
    if case["ratio"]:
        def pad(x, y):
            return 100 * (x - y) / y
    else:
        def pad(x, y):
            return 200 * np.abs(x - y) / np.abs(x + y)
    metrics = run_loader.ComparisonMetrics(*loaders, metric_func=general.percentage_difference if case["ratio"] else run_loader.pad)
    for L, s in zip(loaders, stored):
        s["errs"] = {n: pd.Series(np.sqrt(np.diag(np.linalg.inv(m))), index=names) for n, m in s["fishers"].items()}
        L.results = types.SimpleNamespace(marg_errs={n: x.to_frame("e") for n, x in s["errs"].items()})
    metrics.evaluatePmmMetrics()
    metrics.evaluateCosmoMetrics()
    metrics.evaluateClDataMetrics()
    metrics.evaluateClDerivativesMetrics()
    metrics.evaluateFisherMetrics()
    metrics.evaluateMargErrsMetrics()
    with logs_of(run_loader.logger) as lines:
        metrics.testAllMetrics()
    said = {}
    for line in lines:
        m = re.fullmatch(r"(\w+) (\S+) pads OK", line) or re.fullmatch(r"Not all (\w+) (\S+) pads are below threshold .*", line)
        if m:
            said[m.groups()] = "OK" in line
    common = set(a["fishers"]) & set(b["fishers"])
    eq(set(said), {(k, n) for k in ("marg_errs", "fisher", "inverse_fisher") for n in common}, "compared quantities")
    for (k, n), good in said.items():
        x, y = [{"fisher": s["fishers"][n], "inverse_fisher": np.linalg.inv(s["fishers"][n]), "marg_errs": s["errs"][n].to_numpy()}[k] for s in (a, b)]
        worst, thr = pad(x, y).max(), 1e-6 if k == "marg_errs" else 1e-5
        if not 0.5 < worst / thr < 2 and (worst > 1e-8 or k != "inverse_fisher"):
            eq(good, bool(worst < thr), f"verdict on {k}: largest difference {worst}")
    metrics.writeOnDisk(tmp)
    again = run_loader.ComparisonMetrics()
    again.loadFromDisk(tmp)
    for mm in (metrics, again):
        for k in ("pmms", "cosmos", "cls", "dcls", "fishers"):
            eq(set(getattr(mm, k.replace("fishers", "fisher"))), set(a[k]) & set(b[k]), f"compared {k}")
        for j in set(a["pmms"]) & set(b["pmms"]):
            for k in ("lin", "non"):
                close(mm.pmms[j][{"lin": "lin", "non": "nonlin"}[k]], pad(a["pmms"][j][k], b["pmms"][j][k]), "difference of the power spectra", rtol=1e-9)
        for j in set(a["cosmos"]) & set(b["cosmos"]):
            close(mm.cosmos[j]["E_z"], pad(a["cosmos"][j]["E"], b["cosmos"][j]["E"]), "difference of the expansion rates", rtol=1e-9)
            close(mm.cosmos[j]["r_tilde_z"], pad(a["cosmos"][j]["r"], b["cosmos"][j]["r"]), "difference of the distances", rtol=1e-9)
        for j in set(a["cls"]) & set(b["cls"]):
            for k, x in a["cls"][j].items():
                y = b["cls"][j][k]
                p, q = k.split("_")
                g = {re.sub("^C_", "", str(n)): t for n, t in mm.cls[j].items()}[SHORT[p] + SHORT[q]]
                for n, u, w in (("c_lij", x["c_lij"], y["c_lij"]), ("w1_iz", x["w"][0], y["w"][0]), ("w2_iz", x["w"][1], y["w"][1]), ("n1_iz", x["n"][0], y["n"][0]), ("n2_iz", x["n"][1], y["n"][1]), ("k_ijz", x["k"], y["k"])):
                    close(g[n], pad(u, w), f"difference of {n}", rtol=1e-9)
        for j in set(a["fishers"]) & set(b["fishers"]):
            close(np.asarray(mm.fisher[j].loc[names, names]), pad(a["fishers"][j], b["fishers"][j]), "difference of the Fisher matrices", rtol=1e-7, atol=1e-9)
            close(np.asarray(mm.marg_errs[j].loc[names, "e"]), pad(a["errs"][j], b["errs"][j]).to_numpy(), "difference of the errors", rtol=1e-7, atol=1e-9)
            if case["scale"] > 1e-5:
                close(np.asarray(mm.inverse_fisher[j].loc[names, names]), pad(np.linalg.inv(a["fishers"][j]), np.linalg.inv(b["fishers"][j])), "difference of the inverse matrices", rtol=1e-3, atol=1e-4)
        for j in set(a["dcls"]) & set(b["dcls"]):
            got = {re.sub("^C_", "", str(n)): t for n, t in mm.dcls[j].items()}
            for k, x in a["dcls"][j].items():
                p, q = k.split("_")
                y = b["dcls"][j].get(k)
                if y is not None:
                    with np.errstate(all="ignore"):
                        close(got[SHORT[p] + SHORT[q]], pad(x, y), "difference of the derivatives", rtol=1e-9)
    comp = run_loader.RunComparison()
    comp.rl1, comp.rl2 = loaders
    comp.metrics, comp.metadata = metrics, None
    comp.saveComparisonData(tmp / "comparison", save_run_pickle=True)
    out, = (tmp / "comparison").iterdir()
    loaded = run_loader.RunComparison()
    loaded.loadComparisonData(out)
    eq(loaded.metadata, [L.metadata for L in loaders], "metadata of the comparison")
    eq(set(loaded.metrics.fisher), common, "matrices of the stored comparison")
    for i, s in ((1, a), (2, b)):
        L = run_loader.RunLoader.pickle_load(out / f"run{i}.pickle")
        eq(set(L.fishers), set(s["fishers"]), "matrices of the stored run")
        eq(L.version, loaders[i - 1].version, "version of the stored run")


SHORT = {"PhotometricGalaxy": "ph", "SpectroscopicGalaxy": "sp", "Lensing": "wl"}

"""C30: a forecast is determined by its inputs, whichever way and in however many attempts it is run."""
import contextlib
import functools
import itertools
import logging
import math
import pickle
import re
import shlex
import shutil
import json
from pathlib import Path

import h5py
from hypothesis import assume
import pandas as pd
import c10
import c14
from covlib import *
from c29 import script_module
from seyfert.config.forecast_config import ForecastConfig
from seyfert.config.main_config import AngularConfig
from seyfert.cosmology import redshift_density
from seyfert.cosmology.c_ells import AngularCoefficientsCollector
from seyfert.cosmology.cosmology import Cosmology
from seyfert.cosmology.parameter import PhysicalParametersCollection
from seyfert.fisher.fisher_matrix import FisherMatrix
from seyfert.derivatives.cl_derivative import ClDerivativeCollector
from seyfert.main import cl_core, fisher_core, seyfert_core, task_runners
from seyfert.utils import filesystem_utils as fsu
from seyfert.utils.workspace import WorkSpace

CHECK = Check("C30", ["The three probes with which the program always works are present; derivatives are numerical (SteM).",
                      "PyTables is not installed: pandas' HDFStore, used for the Fisher matrices of each multipole, is a stand-in which stores pickled tables.",
                      "Power spectra are synthetic functions of k, z and the parameters; grids and multipole ranges are small."])
PH, SP, WL, VD = "PhotometricGalaxy", "SpectroscopicGalaxy", "Lensing", "Void"
FID = {"h": 0.67, "w0": -1.0, "wa": 0.0, "OmDE": 0.68, "Omm": 0.32, "Omb": 0.05, "ns": 0.96, "sigma8": 0.816, "mnu": 0.06, "gamma": 0.55}
ELLS = np.array([8.5, 14.5, 25.5, 45, 80.5, 140, 250.5, 450, 800.25, 1400])
WIDTHS = np.diff(np.concatenate([[5], ELLS]))
FREE = ["Omm", "Omb", "w0", "wa", "h", "ns", "sigma8"]


class Store:
    """stand-in for pandas.HDFStore"""
    def __init__(self, path, mode="a", **kw):
        self.path, self.mode = Path(path), mode
        if mode == "r" and not self.path.is_file():
            raise OSError(f"{path} does not exist")
        self.data = pickle.loads(self.path.read_bytes()) if self.path.is_file() and mode != "w" else {}

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    def close(self):
        if self.mode != "r":
            self.path.write_bytes(pickle.dumps(self.data))

    def keys(self):
        return sorted("/" + k for k in self.data)

    def __iter__(self):
        return iter(self.keys())

    def __contains__(self, k):
        return k.lstrip("/") in self.data

    def get(self, k):
        return self.data[k.lstrip("/")].copy()
    __getitem__ = get

    def put(self, k, v, **kw):
        if self.mode == "r":
            raise OSError("file is read-only")
        self.data[k.lstrip("/")] = v.copy()
    __setitem__ = put


def to_hdf(df, path_or_buf, key, mode="a", **kw):
    if isinstance(path_or_buf, Store):
        path_or_buf.put(key, df)
    else:
        with Store(path_or_buf, mode) as s:
            s.put(key, df)


def read_hdf(path, key=None, **kw):
    with Store(path, "r") as s:
        return s.get(key if key is not None else s.keys()[0])


@contextlib.contextmanager
def patched(*triples):
    keep = [(o, n, getattr(o, n)) for o, n, _ in triples]
    try:
        for o, n, v in triples:
            setattr(o, n, v)
        yield
    finally:
        for o, n, v in keep:
            setattr(o, n, v)


def tables():
    return patched((pd, "HDFStore", Store), (pd.DataFrame, "to_hdf", to_hdf), (pd, "read_hdf", read_hdf))



@st.composite
def survey(draw, full=False):
    probes = [PH, SP, WL] + ([VD] if draw(st.integers(0, 5)) == 0 else [])
    n = draw(st.sampled_from([1, 2, 2, 3]))
    return {"probes": {p: {"n": draw(st.integers(1 + full, 2 + full)), "lo": draw(st.integers(0, 2)), "hi": draw(st.integers(8, 10)), "model": draw(st.sampled_from(["constant", "piecewise"])), "free": draw(st.booleans())}
                       for p in draw(st.permutations(probes))}, "ia": draw(st.sampled_from([None, True, True, False])), "offdiag": draw(st.booleans()), "reduced": draw(st.integers(0, 3)) == 0,
            "free": draw(st.permutations(FREE)) if full else draw(st.permutations([draw(st.sampled_from(["Omm", "h", "ns", "sigma8"]))] + draw(st.lists(st.sampled_from(["Omb", "w0", "wa", "gamma"]), max_size=2, unique=True)))),
            "eps": sorted(draw(st.lists(st.integers(5, 60), min_size=n, max_size=n, unique=True))), "seed": draw(st.integers(0, 10 ** 6)), "noise": draw(st.booleans()), "fsky": draw(st.sampled_from([0.35, 0.1, 1.0])),
            "nz": draw(st.integers(9, 20)), "flat": draw(st.integers(0, 3)) > 0, "rule": draw(st.sampled_from(["simpson", "simpson", "newton-cotes_1"])), "scenario": draw(st.sampled_from(["optimistic", "pessimistic"]))}


def disps(case):
    return [e / 1000 for e in case["eps"]]


def zgrid(case):
    return np.linspace(0.1, 2.0, case["nz"])


def parameters(case):
    """name -> [fiducial, probe, free] of all parameters, in the order of the forecast configuration"""
    out = {n: [v, None, n in case["free"]] for n, v in FID.items()}
    for p, c in case["probes"].items():
        if p == VD:
            out["voidbias0"] = [-2.0, VD, c["free"]]
        elif p != WL:
            for i in range(c["n"]):
                out[f"{PREFIX[p]}{i}"] = [1.1 + 0.3 * i + 0.05 * len(p) / 7, p, c["free"]]
        elif case["ia"] is not None:
            for n, v in (("aIA", 1.72), ("cIA", 0.0134), ("etaIA", -0.41), ("betaIA", 2.17)):
                out[n] = [v, WL, case["ia"] and n in ("aIA", "etaIA")]
    return out


def inputs(case, root):
    """input files of the run"""
    data = root / "data"
    data.mkdir(parents=True)
    sections = {}
    for p, c in case["probes"].items():
        z = zgrid(case)
        d = RedshiftDensity(probe=p)
        d.has_niz_from_input = not case["reduced"]  # otherwise from the galaxies' distribution, known only then
        d.input_z_domain = np.linspace(0.05, 2.1, 17)
        d.z_bin_edges = np.linspace(0.05, 2.1, c["n"] + 1)
        d.catalog_f_sky = 0.3
        if case["reduced"]:
            d.input_dN_dz_dOmega = lcg(case["seed"] + 5 + len(p), 17, 1, 30) * 1e6
            d.instrument_response = {"f_out": 0.1, "z_b": 0.0, "sigma_b": 0.1, "c_b": 1.0, "z_o": 0.1, "sigma_o": 0.15, "c_o": 1.0}
        else:
            d.input_n_iz = lcg(case["seed"] + len(p), c["n"] * 17, 0.1, 2).reshape(c["n"], -1)
            d.dN_dOmega_bins = lcg(case["seed"] + 3 + len(p), c["n"], 1, 30) * 1e6
        d.saveToHDF5(data / f"n_{ALIAS[p]}.h5")
        sec = {"density_file": f"n_{ALIAS[p]}.h5", "ell_external_filename": f"l_{ALIAS[p]}.txt"}
        np.savetxt(data / f"l_{ALIAS[p]}.txt", np.array([ELLS[c["lo"]:c["hi"]], WIDTHS[c["lo"]:c["hi"]]]).T)
        if p == WL:
            sec["specific_settings"] = {"include_IA": case["ia"] is not None}
            sec["extra_nuisance_parameters"] = [PhysicalParameter(name=n, fiducial=v, probe=WL, kind=PhysicalParameter.NUISANCE_PAR_STRING, is_free_parameter=f).to_dict() for n, (v, q, f) in parameters(case).items() if q == WL]
        else:
            bias_file(data / f"b_{ALIAS[p]}.h5", p, "fiducial_growth_void" if p == VD else c["model"], d.z_bin_edges, {n: v for n, (v, q, _) in parameters(case).items() if q == p})
            sec.update({"bias_file": f"b_{ALIAS[p]}.h5", "marginalize_bias_flag": c["free"]})
        if p == SP:
            sec["specific_settings"] = {"compute_gcsp_cl_offdiag": case["offdiag"]}
        sections[p] = sec
    if case["noise"]:
        (data / "shot_noise").mkdir()
        with h5py.File(data / "shot_noise" / "noise.h5", "w") as hf:
            for a, b in itertools.combinations_with_replacement(case["probes"], 2):
                hf[f"{a}_{b}"] = noise(case, a, b)
    pars = [PhysicalParameter(name=n, fiducial=v, kind=PhysicalParameter.COSMO_PAR_STRING, is_free_parameter=f).to_dict() for n, (v, q, f) in parameters(case).items() if q is None]
    js = forecast_json(sections, pars, f_sky=case["fsky"], flat=case["flat"], disps=disps(case), shot_noise_file="noise.h5" if case["noise"] else None)
    js["synthetic_opts"].update({"scenario": case["scenario"], "shot_noise_sp_reduced": case["reduced"]})
    (data / "forecast.json").write_text(json.dumps(js))
    (data / "angular.json").write_text(json.dumps({"cl_integration_settings": {"lensing_efficiency": "simpson", "cl": case["rule"]}, "limber_pmm_spline_settings": {"kx": 3, "ky": 3, "s": 0}}))
    spectra(case, root / "pmm")
    return data


def noise(case, a, b):
    na, nb = case["probes"][a]["n"], case["probes"][b]["n"]
    M = lcg(case["seed"] + 40 + len(a) * 3 + len(b), na * nb, 0.0, 1e-9).reshape(na, nb)
    return np.diag(np.diag(M) + 1e-7) if a == b else M


def power_of(case, v, z, lk):
    """depends on every cosmological parameter, on each in its own way"""
    y = 3 - 0.5 * (lk + 1.5) ** 2 - 0.4 * z
    for i, n in enumerate(FID):
        c = lcg(case["seed"] + 300 + i, 4, -1, 1)
        y = y + (v[n] - FID[n]) * (c[0] + c[1] * z + c[2] * lk + c[3] * lk ** 2)
    return 10 ** y


def values_at(case, name, step):
    """values of all cosmological parameters at one step of one of them"""
    v = dict(FID)
    if name in FID:
        v[name] = value_at(case, name, step)
        if case["flat"]:
            if name == "OmDE":
                v["Omm"] = 1 - v["OmDE"]
            else:
                v["OmDE"] = 1 - v["Omm"]
    return v


def value_at(case, name, step):
    fid = parameters(case)[name][0]
    return fid + math.copysign(disps(case)[abs(step) - 1], step) * (fid or 1.0) if step else fid


def steps(case):
    n = len(case["eps"])
    return [k for k in range(-n, n + 1)]


def folder(name, step):
    return f"dvar_{name}_step_0" if step == 0 else f"dvar_{name}_step_{'p' if step > 0 else 'm'}_{abs(step)}"


def spectra(case, where):
    z, lk = zgrid(case), np.linspace(-3.2, 0.2, 12)
    for name, step in [("central", 0)] + [(n, k) for n in case["free"] for k in steps(case) if k]:
        d = where / folder(name, step)
        d.mkdir(parents=True)
        v = values_at(case, name, step)
        pars = {n: PhysicalParameter(name=n, fiducial=FID[n], current_value=v[n], kind=PhysicalParameter.COSMO_PAR_STRING, is_free_parameter=n in case["free"]) for n in FID}
        c = Cosmology(params=pars, flat=case["flat"], z_grid=z)
        ps = PowerSpectrum()
        ps.z_grid, ps.k_grid = z, 10 ** lk
        ps.nonlin_p_mm_z_k = power_of(case, v, z[:, None], lk[None, :])
        ps.lin_p_mm_z_k = 0.8 * ps.nonlin_p_mm_z_k
        c.power_spectrum = ps
        c.evaluateOverRedshiftGrid()
        c.saveToHDF5(d / "p_mm.h5")


def arguments(case, root, **kw):
    data = root / "data"
    return {"workdir": root / "run", "forecast_config": data / "forecast.json", "input_data_dir": data, "angular_config": data / "angular.json", "powerspectrum_dir": root / "pmm", **kw}


def run(case, root, **kw):
    log = root / "log.txt"
    log.touch()
    args = arguments(case, root, **kw)
    Path(args["workdir"]).mkdir(exist_ok=True, parents=True)
    with tables():
        try:
            seyfert_core.do_forecast(args, log)
        except np.linalg.LinAlgError:
            # a product of two free biases constrains neither: the matrix of the cross-correlation is singular up to rounding
            if not any(condition(F.matrix.to_numpy()) > 1e11 for F in read_fishers(Path(args["workdir"]) / "base_fishers").values()):
                raise
            assume(False)
    return WorkSpace(args["workdir"])



# ---------------------------------------------------------------- expected values
def expected_spectra(case, root, name, step):
    """{pair: spectra} at one step of one parameter, from scratch"""
    data = root / "data"
    fc = ForecastConfig(input_file=data / "forecast.json", input_data_dir=data, load_phys_params=True)
    if name in fc.phys_pars and not fc.phys_pars[name].is_cosmological:
        fc.phys_pars[name].current_value = value_at(case, name, step)
        cosmo = Cosmology.fromHDF5(root / "pmm" / folder("central", 0) / "p_mm.h5")
    else:
        for n, v in values_at(case, name, step).items():
            fc.phys_pars[n].current_value = v
        cosmo = Cosmology.fromHDF5(root / "pmm" / folder(name, step) / "p_mm.h5")
    fid = Cosmology.fromHDF5(root / "pmm" / folder("central", 0) / "p_mm.h5")
    for c in (cosmo, fid):
        c.evaluateOverRedshiftGrid()
    dens = {}
    for p, pc in fc.probe_configs.items():
        dens[p] = RedshiftDensity.fromHDF5(pc.density_init_file)
        dens[p].setUp()
        dens[p].evaluate(zgrid(case))
    coll = AngularCoefficientsCollector(phys_params=fc.phys_pars, cosmology=cosmo, fiducial_cosmology=fid, forecast_config=fc, angular_config=AngularConfig(json_input=data / "angular.json"))
    coll.setUp(densities=dens)
    coll.evaluateAngularCoefficients()
    return {tuple(k.split("_")): c for k, c in coll.cl_dict.items()}


def ells(case, *probes):
    lo, hi = max(case["probes"][p]["lo"] for p in probes), min(case["probes"][p]["hi"] for p in probes)
    return ELLS[lo:hi]


def free(case):
    return [n for n, (_, _, f) in parameters(case).items() if f]


def fisher_case(case, D, dcls):
    """the survey in the terms of C14: noisy spectra, derivatives"""
    u = {"probes": list(case["probes"]), "cfg": {p: {"n": c["n"]} for p, c in case["probes"].items()}}
    J, d = {}, {}
    for key, block in D.items():
        a, b = key.split("_")
        J[a, b] = dict(zip(block.l_bin_centers, block.delta_c_lij))
        J[b, a] = {l: M.T for l, M in J[a, b].items()}
    for n in dcls:
        d[n] = {}
        for key, x in dcls[n].items():
            a, b = key.split("_")
            d[n][a, b] = dict(zip(x.l_bin_centers, x.dc_lij))
            d[n][b, a] = {l: M.T for l, M in d[n][a, b].items()}
    return {"u": u, "pars": [[n, q, f] for n, (_, q, f) in parameters(case).items()]}, J, d


def expected_fisher(case, fcase, J, d, vec):
    names = c14.free_names(fcase, vec)
    F = pd.DataFrame(0.0, index=names, columns=names)
    common = ells(case, *involved(vec))
    parts = [(vec, common)]
    if not (len(vec) == 1 and vec[0][0] == vec[0][1]):
        parts += [([[p, p, "long"]], [l for l in ells(case, p) if l not in common]) for p, q, _ in vec if p == q]
    for v, ls in parts:
        for l in ls:
            nm, M = c14.fisher_l(fcase, J, d, v, l)
            F.loc[nm, nm] += M
    return F


def shorts(brief):
    """data vector of its brief name"""
    long = {"ph": PH, "sp": SP, "wl": WL}
    return [[long[e[:2]], long[e[2:]], "long"] for e in brief.split("_")]


def same_matrix(got, want, what, rtol=1e-8, scale=None):
    """entries, relative to the diagonal"""
    eq(set(got.index), set(want.index), f"parameters of {what}")
    w = want.loc[list(got.index), list(got.index)].to_numpy()
    d = np.abs(np.diag(w)) if scale is None else scale.loc[list(got.index)].to_numpy()
    s = np.sqrt(np.outer(d, d))
    bad = ~(np.abs(got.to_numpy() - w) <= rtol * s)
    if bad.any():
        i, j = np.argwhere(bad)[0]
        raise Violation(f"{what}: entry of {got.index[i]}, {got.index[j]} is {got.to_numpy()[i, j]!r} instead of {w[i, j]!r}")


def read_fishers(d):
    out = {}
    for f in d.glob("fisher*.hdf5"):
        F = FisherMatrix.fromHDF5(f)
        check(F.name not in out, f"two files of {F.name} in {d}")
        out[F.name] = F
    return out


def expressions():
    text = (Path(seyfert_core.__file__).parents[1] / "data" / "fishers" / "a_posteriori_fisher_combs.txt").read_text()
    return [line.strip() for line in text.splitlines() if line.strip() and not line.strip().startswith("#")]


def vectors():
    text = (Path(seyfert_core.__file__).parents[1] / "data" / "fishers" / "selected_datavectors.txt").read_text()
    return {line.split(": ")[0]: eval(line.split(": ")[1]) for line in text.splitlines() if line.strip() and not line.strip().startswith("#")}


def check_spectra(case, root, dcls, fid_cls):
    """derivatives against the spectra at every step, computed from scratch"""
    fid = expected_spectra(case, root, "central", 0)
    eq(set(fid_cls), {"_".join(k) for k in fid}, "fiducial spectra")
    for k, c in fid.items():
        same = fid_cls["_".join(k)]
        close(same.l_bin_centers, ells(case, *k), "multipoles", rtol=1e-13)
        close_scaled(same.c_lij, c.c_lij, f"fiducial spectrum {k}", tol=1e-10)
    eq(set(dcls), set(free(case)), "parameters with derivatives")
    for n in free(case):
        every = {k: expected_spectra(case, root, n, k) for k in steps(case) if k}
        every[0] = fid
        x = np.array([value_at(case, n, k) for k in steps(case)])
        eq(set(dcls[n]), set(fid_cls), f"spectra derived with respect to {n}")
        for pair in fid:
            Y = np.stack([every[k][pair].c_lij for k in steps(case)])
            got = dcls[n]["_".join(pair)]
            close(got.l_bin_centers, ells(case, *pair), "multipoles of the derivative", rtol=1e-13)
            eq(got.dc_lij.shape, Y.shape[1:], "shape of the derivative")
            owner = parameters(case)[n][1]
            inner = abs(x[len(x) // 2 + 1] - x[len(x) // 2])
            for idx in np.ndindex(*Y.shape[1:]):
                y = Y[(slice(None),) + idx]
                if not y.any() or (owner is not None and owner not in pair):
                    close(float(got.dc_lij[idx]), 0.0, f"derivative of {pair} with respect to {n}", atol=1e-11 * float(np.max(np.abs(Y))) / inner)
                    continue
                if not y.all():
                    continue
                b, doubtful, used = c10.stem_ref(x, y)
                if not doubtful:
                    close(float(got.dc_lij[idx]), b, f"derivative of {pair} with respect to {n}", rtol=1e-6, atol=1e-10 * float(np.max(np.abs(y))) / inner)


def check_noise(case, D, fid_cls):
    eq(set(D), set(fid_cls), "noisy spectra")
    for key, c in fid_cls.items():
        a, b = key.split("_")
        w = np.interp(ells(case, a, b), ELLS, WIDTHS)
        close(D[key].l_bin_widths, w, "multipole widths", rtol=1e-12)
        f = np.sqrt(1 / (case["fsky"] * w))[:, None, None]
        N = D[key].delta_c_lij / f - c.c_lij
        if case["noise"]:
            close_scaled(N, np.repeat(noise(case, a, b)[None], len(w), axis=0), f"noise of {key}", tol=1e-9, scale=float(np.max(np.abs(D[key].delta_c_lij / f))))
        elif a != b:
            close_scaled(N, np.zeros(N.shape), f"noise of {key}", tol=1e-12, scale=float(np.max(np.abs(c.c_lij))) + 1e-300)
        else:
            check(bool((np.diagonal(N, axis1=1, axis2=2) > 0).all()), f"noise of {key} is not positive")


def check_fishers(case, ws, D, dcls):
    fcase, J, d = fisher_case(case, D, dcls)
    got = read_fishers(ws.base_fishers_dir)
    want = vectors()
    ist = "[GCsp(Pk)]"
    eq(set(got), set(want) | {ist}, "Fisher matrices")
    for name, vec in want.items():
        vec = shorts("_".join(vec))
        names = c14.free_names(fcase, vec)
        F = got[name]
        eq(F.cosmological_parameters, {n for n in names if n in FID}, f"cosmological parameters of {name}")
        eq(F.nuisance_parameters, {n for n in names if n not in FID}, f"nuisance parameters of {name}")
        same_matrix(F.matrix, expected_fisher(case, fcase, J, d, vec), f"Fisher matrix {name}")
    tab = np.loadtxt(Path(seyfert_core.__file__).parents[1] / "data" / "input_data" / "ist_fishers" / "w0_wa_CDM" / f"EuclidISTF_GCsp_w0wa_flat_{case['scenario']}.txt", skiprows=1)
    cols = ["Omm", "Omb", "w0", "wa", "h", "ns", "sigma8"]
    same_matrix(got[ist].matrix, pd.DataFrame(tab, index=cols, columns=cols), "external Fisher matrix", 1e-12)
    return got


def condition(A):
    s = np.sqrt(np.abs(np.diag(A)))
    return np.linalg.cond(A / np.outer(s, s)) if A.size and s.all() else np.inf


COSMOLOGIES = {"LCDM": {"Omm", "Omb", "h", "ns", "sigma8"}, "w0_wa_CDM": set(FREE)}


def check_results(case, ws, base, full):
    """sums and errors of the final results, from the Fisher matrices of the data vectors"""
    for cosmology, allowed in COSMOLOGIES.items():
        for mode in ("marg_before", "marg_after", "nuis_fixed"):
            d = ws.run_dir / "final_results" / cosmology / mode
            got = read_fishers(d)
            what = f"{cosmology}/{mode}"
            keep = [n for n in case["free"] if n in allowed]
            model, scales = {}, {}
            for name, F in base.items():
                M = F.matrix.loc[[n for n in F.matrix.index if n not in FID or n in keep]]
                M = M[list(M.index)]
                nuis = [n for n in M.index if n not in FID]
                cos = [n for n in M.index if n in FID]
                if mode == "nuis_fixed":
                    M = M.loc[cos, cos]
                elif mode == "marg_before" and nuis:
                    A = M.to_numpy()
                    i, j = [list(M.index).index(n) for n in cos], [list(M.index).index(n) for n in nuis]
                    if condition(A[np.ix_(j, j)]) > 1e8:  # the data do not constrain the nuisance parameters
                        M = None
                    else:
                        M = pd.DataFrame(A[np.ix_(i, i)] - A[np.ix_(i, j)] @ np.linalg.solve(A[np.ix_(j, j)], A[np.ix_(j, i)]), index=cos, columns=cos)
                model[name] = M
                scales[name] = None if M is None else pd.Series(np.abs(np.diag(M)), index=M.index)
            for e in expressions():
                words = e.replace(" + ", "\n+ ").replace(" - ", "\n- ").split("\n")
                terms = [model[words[0]]] + [model[w[2:]] for w in words[1:]]
                if any(t is None for t in terms):
                    model[e] = None
                    continue
                scales[e] = pd.concat([scales[words[0]]] + [scales[w[2:]] for w in words[1:]], axis=1).sum(axis=1)
                total = terms[0]
                for w, t in zip(words[1:], terms[1:]):
                    total = total.add(t if w[0] == "+" else -t, fill_value=0)
                model[e] = total.fillna(0.0)
            eq(set(got), set(model), f"Fisher matrices of {what}")
            errors = pd.read_csv(next(d.glob("marginalized_errors_*.csv")), index_col=0)
            eq(set(errors.index), set(model), f"rows of the errors of {what}")
            for name, M in model.items():
                if M is None:
                    continue
                A = M.to_numpy()
                s = np.sqrt(np.abs(np.diag(A)))
                if mode == "marg_before" and condition(A) > 1e9:  # what is left of the marginalisation may be rounding
                    continue
                same_matrix(got[name].matrix, M, f"{name} of {what}", rtol=1e-5, scale=scales[name])
                A = got[name].matrix.loc[list(M.index), list(M.index)].to_numpy()  # a difference may amplify the rounding accepted above
                s = np.sqrt(np.abs(np.diag(A)))
                if condition(A) > 1e9:
                    continue
                cov = np.linalg.inv(A / np.outer(s, s)) / np.outer(s, s)
                for i, n in enumerate(M.index):
                    if n in FID and cov[i, i] > 0:
                        close(float(errors.loc[name, n]), float(np.sqrt(cov[i, i])), f"error of {n} from {name} of {what}", rtol=1e-5)


def verify(case, root, ws, dcls):
    D = cl_core.DeltaClCollection.fromHDF5(ws.delta_cls_file).single_blocks
    fid_cls = AngularCoefficientsCollector.fromHDF5(ws.getClFile(dvar="central", step=0)).cl_dict
    check_spectra(case, root, dcls, fid_cls)
    check_noise(case, D, fid_cls)
    base = check_fishers(case, ws, D, dcls)
    check_results(case, ws, base, None)


def stored_derivatives(ws):
    return {n: c.dcl_dict for n, c in pickle.loads((ws.der_dir / "cl_ders.pickle").read_bytes()).items()}


@CHECK.prop(st.integers(0, 4).flatmap(lambda k: survey(full=k == 4)), quick=4, thorough=80, rule="several free parameters")
def forecast(case, ctx):
    root = ctx.tmp()
    ctx.nontrivial(len(free(case)) > 1)
    ctx.label("voids" if VD in case["probes"] else "", "noise file" if case["noise"] else "", "IA" if case["ia"] else "", f"{len(case['eps'])} displacements")
    inputs(case, root)
    ws = run(case, root)
    verify(case, root, ws, stored_derivatives(ws))


# ---------------------------------------------------------------- the same forecast run in other ways
class Death(BaseException):
    """the process ends here"""


def stage(name):
    name = str(name)
    for word, s in (("norm_dens", "densities"), ("cls_fid", "spectra"), ("/Angular", "spectra"), ("cl_ders", "derivatives"), ("/Derivative", "derivatives"), ("delta_cls", "noise"), ("auto_fisher", "fishers of multipoles"),
                    ("base_fishers", "fishers"), ("final_results", "results")):
        if word in name:
            return s
    return "other"


class Events:
    """writes of a run, one of which may be its last"""
    def __init__(self, root, die_at=None, kill=False):
        self.root, self.seen, self.die_at, self.kill = str(root), [], die_at, kill

    def happen(self, where, partial=None):
        if self.root not in str(where):
            return
        s = stage(where)
        self.seen.append(s)
        if self.die_at is not None and self.die_at == (s, self.seen.count(s) - 1):
            self.die_at = None
            if partial is not None:
                partial()
            if self.kill:
                os._exit(9)
            raise Death()

    def watch(self):
        ev = self
        dataset, group, mkdir, dump, close, csv, excel, replace = h5py.Group.create_dataset, h5py.Group.create_group, Path.mkdir, pickle.dump, Store.close, pd.DataFrame.to_csv, pd.DataFrame.to_excel, os.replace

        def create_dataset(s, *a, **k):
            ev.happen(s.file.filename)
            return dataset(s, *a, **k)

        def create_group(s, *a, **k):
            ev.happen(s.file.filename)
            return group(s, *a, **k)

        def mk(s, *a, **k):
            out = mkdir(s, *a, **k)
            ev.happen(s)
            return out

        def dm(obj, f, *a, **k):
            data = pickle.dumps(obj)

            def half():
                f.write(data[:len(data) // 2])
                f.flush()
            ev.happen(f.name, half)
            f.write(data)

        def cl(s):
            ev.happen(s.path)
            close(s)

        def tc(s, f=None, *a, **k):
            ev.happen(f)
            return csv(s, f, *a, **k)

        def te(s, f, *a, **k):
            ev.happen(f)
            return excel(s, f, *a, **k)

        def rp(a, b, **k):
            ev.happen(b)
            return replace(a, b, **k)
        return patched((h5py.Group, "create_dataset", create_dataset), (h5py.Group, "create_group", create_group), (Path, "mkdir", mk), (pickle, "dump", dm), (Store, "close", cl),
                       (pd.DataFrame, "to_csv", tc), (pd.DataFrame, "to_excel", te), (os, "replace", rp))


def in_child(fn):
    """runs fn in a process of its own: whether it came to its end"""
    pid = os.fork()
    if pid == 0:
        code = 7
        try:
            fn()
            code = 0
        except BaseException:
            import traceback
            if os.environ.get("PBT_TRACE"):
                traceback.print_exc()
        finally:
            os._exit(code)
    code = os.waitstatus_to_exitcode(os.waitpid(pid, 0)[1])
    check(code in (0, 9), f"a run in a process of its own ends with {code}")
    return code == 0


def snapshot(ws, derivatives=stored_derivatives):
    """everything a run leaves to be read"""
    out = {}
    for p, d in redshift_density.load_densities_from_file(file=ws.niz_file).items():
        out["density", p] = d.norm_density_iz
        out["surface density", p] = d.dN_dOmega_bins
    for k, c in AngularCoefficientsCollector.fromHDF5(ws.getClFile(dvar="central", step=0)).cl_dict.items():
        out["spectrum", k], out["multipoles", k] = c.c_lij, c.l_bin_centers
    D = cl_core.DeltaClCollection.fromHDF5(ws.delta_cls_file)
    for k, b in D.single_blocks.items():
        out["noisy spectrum", k], out["widths", k] = b.delta_c_lij, b.l_bin_widths
    for n, ds in derivatives(ws).items():
        for k, d in ds.items():
            out["derivative", n, k], out["multipoles of the derivative", n, k] = d.dc_lij, d.l_bin_centers
    with tables():
        for n, F in read_fishers(ws.base_fishers_dir).items():
            out["Fisher matrix", n] = F
    for d in sorted((ws.run_dir / "final_results").glob("*/*")):
        what = f"{d.parent.name}/{d.name}"
        with tables():
            for n, F in read_fishers(d).items():
                out["result", what, n] = F
        for kind in ("marginalized_errors", "relative_marginalized_errors"):
            (f,) = d.glob(f"{kind}_*.csv")
            (x,) = d.glob(f"{kind}_*.xlsx")
            t = pd.read_csv(f, index_col=0)
            e = pd.read_excel(x, index_col=0)
            eq((set(e.index), set(e.columns)), (set(t.index), set(t.columns)), f"rows and columns of {x.name} of {what}")
            e = e.loc[t.index, t.columns]
            check(bool(((t.to_numpy() == e.to_numpy()) | (np.abs(t.to_numpy() - e.to_numpy()) <= 1e-9 * np.abs(t.to_numpy())) | (t.isna() & e.isna()).to_numpy()).all()), f"{x.name} and {f.name} of {what} disagree")
            out[kind, what] = t
    return out


def same_results(got, want, what):
    eq({k for k in got}, {k for k in want}, f"what {what} leaves")
    for k, w in want.items():
        g = got[k]
        name = f"{' of '.join(map(str, k))} of {what}"
        if isinstance(w, FisherMatrix):
            eq((g.cosmological_parameters, g.nuisance_parameters), (w.cosmological_parameters, w.nuisance_parameters), f"parameters: {name}")
            loose = min(1.0, 1e-13 * condition(w.matrix.to_numpy())) if k[0] == "result" else 0
            if loose < 1e-3 and not (k[0] == "result" and "marg_before" in k[1]):
                parts = [want[(*k[:-1], a)].matrix for a in {k[-1], *re.split(r" [+-] ", k[-1])} if (*k[:-1], a) in want]  # differences of matrices cancel
                scale = pd.concat([pd.Series(np.abs(np.diag(m)), index=m.index) for m in parts], axis=1).sum(axis=1)
                same_matrix(g.matrix, w.matrix, name, 1e-7 + loose, scale=scale)  # rounding of the inverted covariances
        elif isinstance(w, pd.DataFrame):
            eq((set(g.index), set(g.columns)), (set(w.index), set(w.columns)), f"rows and columns: {name}")
            for r in w.index:
                addends = {r, *re.split(r" [+-] ", r)}  # with all of their parameters, i.e. before any marginalization
                worst = max(condition(F.matrix.to_numpy()) for n, F in want.items() if isinstance(F, FisherMatrix) and n[-1] in addends)
                if worst < 1e7:
                    for col in w.columns:
                        a, b = float(g.loc[r, col]), float(w.loc[r, col])
                        check((a != a and b != b) or a == b or abs(a - b) <= 1e-5 * abs(b), f"{r}, {col}: {a} instead of {b}: {name}")
        else:
            scale = np.max(np.abs(w))
            if k[0] == "derivative":
                scale += np.max(np.abs(want["spectrum", k[2]]))
            close_scaled(g, w, name, tol=1e-10, scale=float(scale))


def small(case):
    """a survey whose forecast takes little time"""
    out = dict(case, eps=case["eps"][:1])
    out["probes"] = {p: {**c, "n": min(c["n"], 1 + (p == PH))} for p, c in case["probes"].items()}
    return out


def one_attempt(case, root, ev=None, **kw):
    with (ev.watch() if ev is not None else contextlib.nullcontext()):
        return run(case, root, **kw)


@CHECK.prop(st.fixed_dictionaries({"survey": survey(), "deaths": st.lists(st.tuples(st.integers(0, 7), st.integers(0, 10 ** 6), st.booleans()), min_size=1, max_size=3)}), quick=3, thorough=100, rule="an attempt which is cut short after the densities")
def attempts(case, ctx):
    """a run which dies and is run again, in the same folder"""
    c = small(case["survey"])
    root = ctx.tmp()
    inputs(c, root)
    ev = Events(root / "run")
    ws = one_attempt(c, root, ev)
    want = snapshot(ws)
    stages = sorted(set(ev.seen))
    for i, (s, at, kill) in enumerate(case["deaths"]):
        s = stages[s % len(stages)]
        n = at % ev.seen.count(s)
        ctx.label(f"dies at {s}", "killed" if kill else "interrupted")
        ctx.nontrivial(s not in ("densities", "other"))
        d = root / "again"
        e = Events(d, (s, n), kill)
        if kill:
            in_child(lambda: one_attempt(c, root, e, workdir=d))
        else:
            try:
                one_attempt(c, root, e, workdir=d)
            except Death:
                pass
    same_results(snapshot(one_attempt(c, root, workdir=root / "again")), want, f"a run after {len(case['deaths'])} attempts")
    same_results(snapshot(one_attempt(c, root, workdir=root / "again")), want, "a repeated run")


@CHECK.prop(survey(), quick=2, thorough=60, rule="several free parameters")
def external(case, ctx):
    """spectra and derivatives of an earlier run"""
    c = small(case)
    ctx.nontrivial(len(free(c)) > 1)
    root = ctx.tmp()
    inputs(c, root)
    ws = run(c, root)
    want = snapshot(ws)
    before = {f.relative_to(root): f.read_bytes() for t in ("Angular", "Derivative") for f in (root / "run" / t).rglob("*") if f.is_file()}
    for i, which in enumerate([("angular_dir",), ("angular_dir", "derivative_dir"), ("derivative_dir",)]):
        ext = {"angular_dir": root / "run" / "Angular", "derivative_dir": root / "run" / "Derivative"}
        w = run(c, root, workdir=root / f"ext{i}", **{k: ext[k] for k in which})
        same_results(snapshot(w), want, f"a run with {' and '.join(which)} of another")
    eq({f.relative_to(root): f.read_bytes() for t in ("Angular", "Derivative") for f in (root / "run" / t).rglob("*") if f.is_file()}, before, "files of the other run")


@functools.lru_cache(None)
def program(name):
    return script_module(name)


def job_derivatives(ws):
    return {n: ClDerivativeCollector.fromHDF5(ws.getClDerivativeFile(n)).dcl_dict for n in ws.collectDerivativeParams()}


class Jobs:
    """stands for subprocess: the programs of the pipeline run here"""
    PIPE = -1

    def __init__(self):
        self.programs = []

    def run(self, cmd, **kw):
        here = os.getcwd()
        root = logging.getLogger()
        keep = list(root.handlers)
        try:
            words = shlex.split(cmd)
            if words[0].endswith(".sh"):
                lines = [l for l in Path(words[0]).read_text().splitlines() if l.strip() and not l.startswith("#")]
                eq(len(lines), 2, "lines of a job's script")
                os.chdir(shlex.split(lines[0])[1])
                words = shlex.split(lines[1])
            self.programs.append(words[0])
            mod = program(words[0])
            args = (mod.get("program_params") or mod["program_options"])().parse_args(words[1:])
            mod["main"](args if words[0] in ("evaluate_final_results", "compute_delta_cls") else vars(args))
        finally:
            os.chdir(here)
            for h in [h for h in root.handlers if h not in keep]:
                root.removeHandler(h)
                h.close()
        return SimpleNamespace(stderr=b"", stdout=b"", returncode=0)


def submit(case, root, where, tasks, rundir=None, **kw):
    """job_submitter: the run folder"""
    data = root / "data"
    args = {"forecast_config": data / "forecast.json", "input_data_dir": data, "run_id": "jobs", "execution": "interactive", "queue": "long", "memory": 100, "n_cores_per_job": 1, "verbose": False, "test": True, "overwrite_results": False}
    for t, f in (("PowerSpectrum", "power_spectrum_config.json"), ("Angular", None), ("Derivative", "derivative_config.json"), ("Fisher", "fisher_config.json")):
        args[t.lower()] = t in tasks
        args[f"{t.lower()}_config"] = data / "angular.json" if f is None else fsu.config_files_dir() / f
        args[f"{t.lower()}_dir"] = None
    args.update({"powerspectrum_dir": root / "pmm", **kw})
    where.mkdir(exist_ok=True)
    here = os.getcwd()
    jobs = Jobs()
    try:
        os.chdir(where)
        with tables(), patched((task_runners, "sp", jobs), (task_runners.gu, "get_execution_host", lambda: ["h", "p"])):
            r = task_runners.ForecastRunner(cmd_line_args=args, rundir=rundir)
            r.doForecast()
    except np.linalg.LinAlgError:
        assume(False)
    finally:
        os.chdir(here)
    return WorkSpace(r.rundir)


def noise_of_jobs(c, root, ctx):
    """noise given when the Fisher matrices are computed, instead of by the configuration"""
    with_noise, without = {**c, "noise": True}, {**c, "noise": False}
    inputs(with_noise, root / "noisy")
    want = snapshot(run(with_noise, root / "noisy"))
    inputs(without, root / "quiet")
    w = submit(without, root / "quiet", root / "jobs", ["Angular", "Derivative"])
    jobs = Jobs()
    with tables():
        jobs.run(f"compute_delta_cls {w.run_dir}")
        auto, cross = task_runners.FisherTaskRunner.loadFisherDatavectorBriefStrings()
        for names in (auto, cross):
            jobs.run(f"compute_fisher_matrix {' '.join(names)} --rundir {w.run_dir} --outdir {root / 'out'} --shot_noise_file {root / 'noisy' / 'data' / 'shot_noise' / 'noise.h5'}")
        got = read_fishers(root / "out")
    eq(set(got), {k[1] for k in want if k[0] == "Fisher matrix"} - {"[GCsp(Pk)]"}, "Fisher matrices")
    same_results({("Fisher matrix", n): F for n, F in got.items()}, {k: F for k, F in want.items() if k[0] == "Fisher matrix" and k[1] in got}, "jobs with a noise file of their own")


@CHECK.prop(st.fixed_dictionaries({"survey": survey(), "split": st.sampled_from(["once", "folders", "again", "in-process", "twice", "noise"])}), quick=3, thorough=80, rule="several free parameters")
def jobs(case, ctx):
    """a forecast made of jobs, and one made at once"""
    c = small(case["survey"])
    ctx.nontrivial(len(free(c)) > 1)
    ctx.label(case["split"])
    root = ctx.tmp()
    inputs(c, root)
    want = snapshot(run(c, root))
    where = root / "jobs"
    if case["split"] == "noise":
        return noise_of_jobs(c, root, ctx)
    if case["split"] == "folders":
        a = submit(c, root, root / "a", ["Angular"])
        d = submit(c, root, root / "d", ["Derivative"], angular_dir=a.cl_dir)
        w = submit(c, root, where, ["Fisher"], angular_dir=a.cl_dir, derivative_dir=d.der_dir)
        shutil.copy(a.niz_file, w.niz_file)
    elif case["split"] == "again":
        w = submit(c, root, where, ["Angular"])
        w = submit(c, root, where, ["Derivative"], rundir=w.run_dir)
        w = submit(c, root, where, ["Fisher"], rundir=w.run_dir)
        w = submit(c, root, where, ["Fisher"], rundir=w.run_dir, overwrite_results=True)
    elif case["split"] == "twice":
        w = submit(c, root, where, ["Angular"])
        w = submit(c, root, where, ["Angular", "Derivative"], rundir=w.run_dir)
        w = submit(c, root, where, ["Derivative", "Fisher"], rundir=w.run_dir)
    else:
        w = submit(c, root, where, ["Angular", "Derivative", "Fisher"])
    if case["split"] == "once":
        with tables():
            Jobs().run(f"compute_delta_cls {w.run_dir}")
            Jobs().run(f"evaluate_final_results -i {w.run_dir} -ow True -wd {w.run_dir} -ex interactive")
    same_results(snapshot(w, job_derivatives), want, "a forecast made of jobs")
    if case["split"] == "in-process":
        same_results(snapshot(run(c, root, workdir=root / "mixed", angular_dir=w.cl_dir)), want, "a run with the spectra of jobs")

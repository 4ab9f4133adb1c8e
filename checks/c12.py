"""C12: noisy spectra and joint blocks."""
from coslib import *
from seyfert.config.forecast_config import ForecastConfig
from seyfert.config.main_config import FisherConfig
from seyfert.cosmology.c_ells import AngularCoefficient, AngularCoefficientsCollector
from seyfert.fisher.delta_cl import DeltaCl, DeltaClCollection

CHECK = Check("C12", ["Multipoles are unit linear bins (or the centres and widths of an external file), so that probes share multipoles exactly.",
                      "Catalogues of the reduced spectroscopic noise are cubic polynomials on an odd uniform grid: their integral is exact."])
SIGMA_EPS = 0.3


@st.composite
def survey(draw, nprobes=(1, 4)):
    probes = draw(st.permutations(PROBES))[:draw(st.sampled_from([n for n in (2, 3, 4, 1, 2, 3) if nprobes[0] <= n <= nprobes[1]]))]
    out = {}
    for p in probes:
        lo = draw(st.integers(2, 30))
        out[p] = {"n": draw(st.integers(1, 4)), "lo": lo if p != probes[0] else 10, "seed": draw(st.integers(0, 10 ** 6)), "raw": draw(st.booleans()),
                  "ext": draw(st.integers(0, 3)) == 0}
    # every range contains the multipoles [l0, l0 + common)
    l0 = draw(st.integers(8, 40))
    common = draw(st.integers(1, 4))
    for p in probes:
        out[p]["lo"] = l0 - draw(st.integers(0, 4))
        out[p]["hi"] = l0 + common + draw(st.integers(0, 5))
    return {"probes": list(probes), "cfg": out, "f_sky": draw(st.sampled_from([0.35, 1.0, 0.05, 0.3636])), "seed": draw(st.integers(0, 10 ** 6)),
            "reduced": draw(st.integers(0, 3)) == 0, "stored": draw(st.integers(0, 3)) == 0}


def catalogue(c, tmp, probe, raw):
    """density file; expected number of objects per bin and in total"""
    dens = RedshiftDensity(probe=probe)
    lo, hi = 0.1, 0.1 + 0.4 * c["n"]
    dens.input_z_domain = np.linspace(lo, hi, 15)
    dens.z_bin_edges = np.linspace(lo, hi, c["n"] + 1)
    dens.catalog_f_sky = 0.2 + 0.7 * (c["seed"] % 10) / 10
    dens.has_niz_from_input = not raw
    if raw:
        co = np.abs(lcg(c["seed"], 4, 0.2, 3)) * 10
        dens.input_dN_dz_dOmega = np.polyval(co, dens.input_z_domain)
        prim = np.polyint(co)
        dens.instrument_response = {"f_out": 0.1, "z_b": 0.0, "sigma_b": 0.1, "c_b": 1.0, "z_o": 0.1, "sigma_o": 0.1, "c_o": 1.0}
        per_bin = np.diff(np.polyval(prim, dens.z_bin_edges))
        total = (np.polyval(prim, hi) - np.polyval(prim, lo)) * 4 * np.pi * dens.catalog_f_sky
    else:
        dens.input_n_iz = lcg(c["seed"], c["n"] * 15, 0.1, 2).reshape(c["n"], 15)
        per_bin = lcg(c["seed"] + 1, c["n"], 0.5, 40)
        dens.dN_dOmega_bins = per_bin.copy()
        total = None
    d = tmp / "in" / (ALIAS[probe] if c["seed"] % 2 else probe)
    d.mkdir(parents=True, exist_ok=True)
    dens.saveToHDF5(d / "density.h5")
    return per_bin, total


def multipoles(c):
    """centres and widths of the probe's bins"""
    x = np.arange(c["lo"], c["hi"]) + 0.5
    return x, (1.0 + 0.01 * x if c["ext"] else np.ones(len(x)))


def build(case, tmp):
    inp = tmp / "in"
    inp.mkdir()
    secs, counts, totals = {}, {}, {}
    ext = all(case["cfg"][p]["ext"] for p in case["probes"])
    reduced = case["reduced"] and {"PhotometricGalaxy", "SpectroscopicGalaxy"} <= set(case["probes"])
    for p in case["probes"]:
        c = case["cfg"][p]
        c["ext"] = ext  # widths are shared by all probes
        raw = (c["raw"] and c["n"] < 3) or (reduced and p in PROBES[:2])
        counts[p], totals[p] = catalogue(c, tmp, p, raw)
        secs[p] = {"l_min": c["lo"], "l_max": c["hi"]}
        if ext:
            np.savetxt(inp / f"ells_{p}.txt", np.column_stack(multipoles(c)), fmt="%.17g")
            secs[p]["ell_external_filename"] = f"ells_{p}.txt"
    conf = forecast_json(secs, f_sky=case["f_sky"])
    conf["probes"] = {ALIAS[p]: conf["probes"][ALIAS[p]] for p in case["probes"]}
    conf["synthetic_opts"]["shot_noise_sp_reduced"] = case["reduced"]
    (inp / "bias.h5").touch()  # named by the configuration, not read here
    f = tmp / "forecast.json"
    f.write_text(json.dumps(conf))
    return ForecastConfig(input_file=f, input_data_dir=inp), counts, totals, reduced


def spectra(case, conf):
    """symmetric positive auto-spectra, arbitrary cross-spectra"""
    coll = AngularCoefficientsCollector()
    ref = {}
    i0 = 0
    for p1, p2 in conf.probes_combinations:
        n1, n2 = case["cfg"][p1]["n"], case["cfg"][p2]["n"]
        l1, d1 = multipoles(case["cfg"][p1])
        l2, _ = multipoles(case["cfg"][p2])
        keep = np.isin(l1, l2)
        i0 += 1
        C = lcg(case["seed"] + 17 * i0, keep.sum() * n1 * n2, -0.2, 0.2).reshape(keep.sum(), n1, n2)
        if p1 == p2:
            C = C + C.transpose(0, 2, 1) + np.eye(n1)
        key = f"{p1}_{p2}"
        cl = AngularCoefficient(probe1=p1, probe2=p2)
        cl.l_bin_centers, cl.l_bin_widths, cl.c_lij = l1[keep], d1[keep], C.copy()
        coll.cl_dict[key] = cl
        ref[key] = (l1[keep], d1[keep], C)
    return coll, ref


def expected_noise(case, p1, p2, counts, totals, reduced, nl):
    n1, n2 = len(counts[p1]), len(counts[p2])
    if p1 != p2:
        return np.zeros((nl, n1, n2))
    noise = np.diag(1 / counts[p1]) * (SIGMA_EPS ** 2 if p1 == "Lensing" else 1)
    if p1 == "SpectroscopicGalaxy" and reduced:
        noise = noise * totals["SpectroscopicGalaxy"] / totals["PhotometricGalaxy"]
    return np.array([noise] * nl)


@CHECK.prop(survey(), quick=200, thorough=3000, rule="two or more probes, or a probe with several bins")
def signal_plus_noise(case, ctx):
    tmp = ctx.tmp()
    if case["reduced"] and "SpectroscopicGalaxy" in case["probes"] and "PhotometricGalaxy" not in case["probes"]:
        case["reduced"] = False
    conf, counts, totals, reduced = build(case, tmp)
    eq(conf.present_probes, case["probes"], "probes")
    coll, ref = spectra(case, conf)
    ctx.nontrivial(len(case["probes"]) > 1 or any(case["cfg"][p]["n"] > 1 for p in case["probes"]))
    ctx.label(f"{len(case['probes'])} probes", "reduced" if reduced else "full", "external" if case["cfg"][case["probes"][0]]["ext"] else "unit bins")
    D = DeltaClCollection(fcfg=conf, fisher_cfg=FisherConfig())
    D.loadFiducialCls(coll)
    eq(sorted(D.single_blocks), sorted(ref), "spectra")
    D.evaluateSingleBlocks()
    noises = {}

    def examine(D, f_sky, noises=None):
        for key, (l, dl, C) in ref.items():
            p1, p2 = key.split("_")
            b = D.single_blocks[key]
            N = expected_noise(case, p1, p2, counts, totals, reduced, len(l)) if noises is None else noises[key]
            close(b.noise_lij, N, f"noise of {key}", rtol=1e-6)
            close(b.delta_c_lij, (C + N) / np.sqrt(f_sky * dl)[:, None, None], f"noisy spectrum {key}", rtol=1e-6, atol=1e-9)
            same_bits(b.c_lij, C, f"signal {key}")
            same_bits(b.l_bin_centers, l, f"multipoles of {key}")
            same_bits(coll.cl_dict[key].c_lij, C, f"the spectra themselves {key}")
            if p1 == p2:
                check(D[p1] is b, f"auto block {p1}")
                close(b.inv_delta_c_lij @ b.delta_c_lij, np.array([np.eye(C.shape[1])] * len(l)), "inverse", rtol=0, atol=1e-8)
        eq(sorted(D.keys()), sorted(case["probes"]), "auto blocks")
    examine(D, case["f_sky"])
    # another sky fraction, evaluated again: nothing accumulates
    D.evaluateSingleBlocks(f_sky=0.5)
    examine(D, 0.5)
    D.evaluateSingleBlocks()
    examine(D, case["f_sky"])
    if case["stored"]:
        f = tmp / "noise.h5"
        D.writeShotNoiseToFile(f)
        E = DeltaClCollection(fcfg=conf, fisher_cfg=FisherConfig())
        E.loadFiducialCls(coll)
        E.loadShotNoiseFromFile(f)
        E.evaluateSingleBlocks()
        examine(E, case["f_sky"])
        # the noise of a file replaces the survey's one
        import h5py
        noises = {}
        with h5py.File(tmp / "other.h5", "w") as hf:
            for n, (key, (l, dl, C)) in enumerate(ref.items()):
                N = lcg(case["seed"] + n, C[0].size, -0.03, 0.03).reshape(C[0].shape)
                hf[key] = N
                noises[key] = np.array([N] * len(l))
        E.loadShotNoiseFromFile(tmp / "other.h5")
        E.evaluateSingleBlocks()
        examine(E, case["f_sky"], noises)
        ctx.label("noise from file")


@st.composite
def blocks_case(draw):
    s = draw(survey((1, 4)))
    s["flip"] = [draw(st.booleans()) for _ in range(6)]
    s["request"] = draw(st.permutations(s["probes"]))
    return s


@CHECK.prop(blocks_case(), quick=400, thorough=6000, rule="at least two probes with different multipole ranges")
def joint_blocks(case, ctx):
    """blocks of several probes, whichever order the spectra are stored in"""
    from seyfert.fisher import fisher_utils as fu
    probes = case["probes"]
    ell, data, store, lstore = {}, {}, {}, {}
    k = 0
    for a, p1 in enumerate(probes):
        for p2 in probes[a:]:
            n1, n2 = case["cfg"][p1]["n"], case["cfg"][p2]["n"]
            l = np.array([x for x in np.arange(case["cfg"][p1]["lo"], case["cfg"][p1]["hi"]) + 0.5
                          if case["cfg"][p2]["lo"] < x < case["cfg"][p2]["hi"]])
            C = lcg(case["seed"] + 31 * k, len(l) * n1 * n2, -1, 1).reshape(len(l), n1, n2)
            if p1 == p2:
                C = C + C.transpose(0, 2, 1)
            data[p1, p2], ell[p1, p2] = C, l
            data[p2, p1], ell[p2, p1] = C.transpose(0, 2, 1), l
            x, y = (p2, p1) if p1 != p2 and case["flip"][k % 6] else (p1, p2)
            store[f"{x}_{y}"], lstore[f"{x}_{y}"] = data[x, y].copy(), l
            k += 1
    req = case["request"][:max(1, len(probes) - case["seed"] % 2)]
    ranges = {(case["cfg"][p]["lo"], case["cfg"][p]["hi"]) for p in req}
    ctx.nontrivial(len(req) > 1 and len(ranges) > 1)
    ctx.label(f"{len(req)} of {len(probes)} probes")
    l, M = fu.buildXCBlockMatrixForProbes(probes=list(req), matrix_dict=store, l_dict=lstore)
    lo, hi = max(a for a, _ in ranges), min(b for _, b in ranges)
    want_l = np.arange(lo, hi) + 0.5
    same_bits(l, want_l, "multipoles shared by all probes")
    n = [case["cfg"][p]["n"] for p in req]
    off = np.concatenate([[0], np.cumsum(n)])
    eq(M.shape, (len(want_l), off[-1], off[-1]), "size of the joint block")
    for a, p1 in enumerate(req):
        for b, p2 in enumerate(req):
            got = M[:, off[a]:off[a + 1], off[b]:off[b + 1]]
            same_bits(got, data[p1, p2][np.isin(ell[p1, p2], want_l)], f"block {p1},{p2}")
    if len(req) > 1:
        miss = dict(store)
        key = f"{req[0]}_{req[1]}" if f"{req[0]}_{req[1]}" in miss else f"{req[1]}_{req[0]}"
        del miss[key]
        raises(KeyError, lambda: fu.buildXCBlockMatrixForProbes(probes=list(req), matrix_dict=miss, l_dict=lstore), "missing spectrum")


@CHECK.prop(survey((2, 4)), quick=120, thorough=1500, rule="always")
def joint_collection(case, ctx):
    """the joint blocks of a survey: all its probes together and each pair, with their inverses"""
    tmp = ctx.tmp()
    case["reduced"] = False
    for p in case["probes"]:
        case["cfg"][p]["raw"] = False
    conf, counts, totals, reduced = build(case, tmp)
    coll, ref = spectra(case, conf)
    D = DeltaClCollection(fcfg=conf, fisher_cfg=FisherConfig())
    D.loadFiducialCls(coll)
    D.evaluateSingleBlocks()
    D.buildXCBlocks()
    ctx.nontrivial()
    probes = case["probes"]
    groups = {"+".join(g + ["XC"]): g for g in [probes] + [[a, b] for i, a in enumerate(probes) for b in probes[i + 1:]]}
    eq(sorted(D.keys()), sorted(probes + list(groups)), "names of the blocks")
    ctx.label(f"{len(probes)} probes")
    for name, g in groups.items():
        b = D[name]
        lo, hi = max(case["cfg"][p]["lo"] for p in g), min(case["cfg"][p]["hi"] for p in g)
        same_bits(b.l_bin_centers, np.arange(lo, hi) + 0.5, f"multipoles of {name}")
        off = np.concatenate([[0], np.cumsum([case["cfg"][p]["n"] for p in g])])
        for i, p1 in enumerate(g):
            for j, p2 in enumerate(g):
                key, T = (f"{p1}_{p2}", False) if f"{p1}_{p2}" in ref else (f"{p2}_{p1}", True)
                s = D.single_blocks[key].delta_c_lij[np.isin(ref[key][0], b.l_bin_centers)]
                same_bits(b.delta_c_lij[:, off[i]:off[i + 1], off[j]:off[j + 1]], s.transpose(0, 2, 1) if T else s, f"{name}: {p1},{p2}")
        I = b.inv_delta_c_lij @ b.delta_c_lij
        if np.max(np.linalg.cond(b.delta_c_lij)) < 1e6:
            close(I, np.array([np.eye(off[-1])] * len(I)), "inverse", rtol=0, atol=1e-7)

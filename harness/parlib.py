from pbt import *
from seyfert.cosmology.parameter import PhysicalParameter, PhysicalParametersCollection, ParameterError

COSMO = ["Omm", "OmDE", "Omb", "w0", "wa", "h", "ns", "sigma8", "mnu", "gamma"]
PROBES = ["PhotometricGalaxy", "SpectroscopicGalaxy", "Lensing", "Void"]
NUIS = [("bgph1", PROBES[0]), ("bgph2", PROBES[0]), ("bgph10", PROBES[0]), ("bgsp1", PROBES[1]), ("bgsp2", PROBES[1]),
        ("aIA", PROBES[2]), ("etaIA", PROBES[2]), ("betaIA", PROBES[2]), ("bvd1", PROBES[3])]
VALUE = st.one_of(st.sampled_from([0.0, -1.0, 1.0, 0.32, 0.68, 0.05, -0.5]), finite(-5, 5).map(lambda x: round(x, 6)),
                  finite(-1e-9, 1e-9))
C, N = PhysicalParameter.COSMO_PAR_STRING, PhysicalParameter.NUISANCE_PAR_STRING


@st.composite
def param(draw, name, kind, probe):
    fid = draw(VALUE)
    return {"name": name, "kind": kind, "probe": probe, "fiducial": fid,
            "current": draw(st.one_of(st.none(), VALUE)), "free": draw(st.booleans()),
            "stem_factor": draw(st.sampled_from([1.0, 1.0, 7.0, 10.0, 0.5, -2.0])),
            "units": draw(st.sampled_from(["None", "km", "eV"])),
            "method": draw(st.sampled_from(["SteM", "Analytic"]))}


@st.composite
def collection(draw, flat=None, min_size=1):
    ps = []
    cos = draw(st.lists(st.sampled_from(COSMO), unique=True, max_size=6))
    flat = draw(st.booleans()) if flat is None else flat
    if flat:
        cos = [p for p in cos if p not in ("Omm", "OmDE")] + ["Omm", "OmDE"]
    nui = draw(st.lists(st.sampled_from(NUIS), unique=True, min_size=0 if cos else min_size, max_size=5))
    names = draw(st.permutations([(p, C, None) for p in cos] + [(n, N, p) for n, p in nui]))
    for name, kind, probe in names:
        ps.append(draw(param(name, kind, probe)))
    if flat:
        om = draw(st.integers(1, 99)) / 100
        for p in ps:
            if p["name"] in ("Omm", "OmDE"):
                p["fiducial"] = om if p["name"] == "Omm" else round(1 - om, 2)
                p["current"] = None
        free = draw(st.sampled_from(["Omm", "OmDE", None]))
        for p in ps:
            if p["name"] in ("Omm", "OmDE"):
                p["free"] = p["name"] == free
    n = draw(st.integers(1, 12))
    disps = sorted(set(draw(st.lists(st.integers(1, 400), min_size=n, max_size=n)))) or [1]
    unit = draw(st.sampled_from([1000, 1000, 10 ** 6, 10 ** 8]))
    return {"params": ps, "flat": flat, "disps": list(draw(st.permutations([d / unit for d in disps])))}


def build_param(p, numpy_flag=False):
    return PhysicalParameter(name=p["name"], fiducial=float(p["fiducial"]), current_value=p["current"], kind=p["kind"],
                             probe=p["probe"], is_free_parameter=np.bool_(p["free"]) if numpy_flag else p["free"],
                             stem_factor=p["stem_factor"], units=p["units"], derivative_method=p["method"])


def build(case, as_array=True, numpy_flag=False):
    return PhysicalParametersCollection(
        data_dict={p["name"]: build_param(p, numpy_flag) for p in case["params"]},
        base_stem_disps=np.array(case["disps"]) if as_array else list(case["disps"]), is_universe_flat=case["flat"])


def displaced(p, eps):
    d = eps * p["stem_factor"]
    return p["fiducial"] + (d * p["fiducial"] if p["fiducial"] != 0 else d)

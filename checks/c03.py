"""C03: parameter collections select and persist faithfully."""
import json as _json
from pbt import *
import parlib as pl
from seyfert.cosmology.parameter import PhysicalParameter, PhysicalParametersCollection

CHECK = Check("C03", ["The free-text description of a parameter is not part of the stored data."])


def attrs(p):
    return {"name": p.name, "kind": p.kind, "probe": p.probe, "fiducial": float(p.fiducial),
            "current": float(p.current_value), "free": bool(p.is_free_parameter), "stem_factor": float(p.stem_factor),
            "units": p.units, "method": p.derivative_method}


def wanted(p):
    d = dict(p)
    d["current"] = p["fiducial"] if p["current"] is None else p["current"]
    return d


@CHECK.prop(st.tuples(pl.collection(), st.booleans(), st.booleans()), quick=200, thorough=5000,
            rule="at least two parameters")
def json_round_trip(case, ctx):
    c, only_cosmo, np_flag = case
    coll = pl.build(c, numpy_flag=np_flag)
    ctx.nontrivial(len(c["params"]) >= 2)
    ctx.label("numpy flags" if np_flag else "bool flags")
    d = ctx.tmp()
    coll.writeJSON(d / "p.json")
    want = [wanted(p) for p in c["params"]]
    if only_cosmo:
        want = [w for w in want if w["kind"] == pl.C]
    disps = sorted([-x for x in c["disps"]] + list(c["disps"]))
    base = PhysicalParametersCollection(is_universe_flat=not c["flat"], base_stem_disps=[0.5])
    base.readJSON(d / "p.json", only_cosmological=only_cosmo)
    for what, new in (("fromJSON", PhysicalParametersCollection.fromJSON(d / "p.json", only_cosmological=only_cosmo)),
                      ("readJSON", base)):
        eq([attrs(p) for p in new.values()], want, f"{what}: parameters in order")
        eq(list(new), [w["name"] for w in want], f"{what}: names in order")
        eq(new.is_universe_flat, c["flat"], f"{what}: flatness")
        eq([float(x) for x in new.stem_disps], disps, f"{what}: displacements")
        eq({int(k): float(v) for k, v in new.stem_dict.items()}, {int(k): float(v) for k, v in coll.stem_dict.items()},
           f"{what}: steps")
        if not only_cosmo:
            check(bool(new == coll), f"{what}: equality")
    new.writeJSON(d / "q.json")
    if not only_cosmo:
        eq(_json.loads((d / "q.json").read_text()), _json.loads((d / "p.json").read_text()), "second generation")


@CHECK.prop(st.tuples(pl.collection(), st.integers(0, 20)), quick=150, thorough=3000, rule="nuisance and cosmological parameters present")
def selections(case, ctx):
    c, k = case
    coll = pl.build(c)
    ps = c["params"]

    def names(f):
        return [p["name"] for p in ps if f(p)]

    cos, nui = (lambda p: p["kind"] == pl.C), (lambda p: p["kind"] == pl.N)
    ctx.nontrivial(any(map(cos, ps)) and any(map(nui, ps)))
    eq(list(coll.cosmological_parameters), names(cos), "cosmological parameters")
    eq(list(coll.nuisance_parameters), names(nui), "nuisance parameters")
    eq(list(coll.free_physical_parameters), names(lambda p: p["free"]), "free parameters")
    eq(list(coll.free_cosmological_parameters), names(lambda p: p["free"] and cos(p)), "free cosmological parameters")
    eq(coll.cosmo_pars_fiducials, {p["name"]: p["fiducial"] for p in ps if cos(p)}, "fiducials")
    eq(coll.free_cosmo_pars_fiducials, {p["name"]: p["fiducial"] for p in ps if cos(p) and p["free"]}, "free fiducials")
    eq(coll.cosmo_pars_current_values, {p["name"]: wanted(p)["current"] for p in ps if cos(p)}, "current values")
    for probe in pl.PROBES:
        mine = lambda p: nui(p) and p["probe"] == probe  # noqa: E731
        eq(list(coll.getNuisanceParametersForProbe(probe)), names(mine), f"nuisance parameters of {probe}")
        eq(list(coll.getFreeNuisanceParametersForProbe(probe)), names(lambda p: mine(p) and p["free"]),
           f"free nuisance parameters of {probe}")
        eq(sorted(coll.getFreePhysicalParametersForProbe(probe)), sorted(names(lambda p: p["free"] and (cos(p) or mine(p)))),
           f"free parameters of {probe}")
    for p in ps:
        q = coll[p["name"]]
        eq((q.is_cosmological, q.is_nuisance), (cos(p), nui(p)), f"kind of {p['name']}")
        eq(q.is_galaxy_bias_parameter, nui(p) and p["name"].startswith("bg"), f"bias flag of {p['name']}")
        check(coll.params[p["name"]] is q, "the collection hands out its own parameters")
    # equality notices every compared attribute
    p = ps[k % len(ps)]
    for attr, val in (("fiducial", p["fiducial"] + 1), ("current", wanted(p)["current"] + 1), ("name", "zz")):
        other = pl.build({**c, "params": [dict(q, **({attr: val} if q is p else {})) for q in ps]})
        if attr == "fiducial":
            other[p["name"]].current_value = wanted(p)["current"]
        check(not bool(other == coll), f"collections differing in {attr} of {p['name']} compare equal")
    check(bool(pl.build(c) == coll), "equal collections compare different")


OPS = st.one_of(st.tuples(st.just("set"), st.integers(0, 8), st.integers(0, 5)), st.tuples(st.just("del"), st.integers(0, 8)),
                st.tuples(st.just("update"), st.lists(st.tuples(st.integers(0, 8), st.integers(0, 5)), max_size=3)))


@CHECK.prop(st.tuples(pl.collection(), ops_list(OPS, 1, 8)), quick=100, thorough=2000, rule="a deletion or overwrite")
def behaves_like_an_ordered_mapping(case, ctx):
    c, ops = case
    coll = pl.build(c)
    model = {p["name"]: wanted(p)["fiducial"] for p in c["params"]}
    pool = [p[0] for p in pl.NUIS]

    def mk(k, v):
        return PhysicalParameter.createNuisanceParameter(name=pool[k], fiducial=float(v), probe="Lensing",
                                                         is_free_parameter=True)
    for op in ops:
        if op[0] == "set":
            ctx.nontrivial(pool[op[1]] in model)
            coll[pool[op[1]]] = mk(op[1], op[2])
            model[pool[op[1]]] = float(op[2])
        elif op[0] == "del":
            name = pool[op[1]]
            if name in model:
                ctx.nontrivial()
                del coll[name]
                del model[name]
            else:
                raises(KeyError, lambda: coll.__delitem__(name), "deleting an absent parameter")
        else:
            coll.update({pool[k]: mk(k, v) for k, v in op[1]})
            model.update({pool[k]: float(v) for k, v in op[1]})
        eq({n: p.fiducial for n, p in coll.items()}, model, f"after {op}")
        eq((len(coll), list(coll.keys()), list(coll)), (len(model), list(model), list(model)), f"after {op}: keys")
        for n in pool:
            eq(n in coll, n in model, f"membership of {n}")


@CHECK.prop(pl.param("aIA", pl.N, "Lensing"), quick=60, thorough=500, rule="all")
def single_parameter_json(p, ctx):
    ctx.nontrivial()
    q = pl.build_param(p)
    file = ctx.tmp() / "x.json"
    file.write_text(q.to_JSON())
    for new in (PhysicalParameter.fromJSON(file), PhysicalParameter.from_dict(q.to_dict())):
        eq(attrs(new), wanted(p), "parameter read back")

"""C02: stencil displacements move one parameter at a time; reset/central restore everything."""
from pbt import *
import parlib as pl

CHECK = Check("C02", ["Flat collections contain OmegaM and OmegaDE with decimal fiducials adding up to one, at most one "
                      "of them free (the documented precondition)."])

OPS = st.one_of(
    st.tuples(st.just("step"), st.integers(0, 20), st.integers(0, 30)),
    st.tuples(st.just("step"), st.integers(0, 20), st.integers(0, 30)),
    st.tuples(st.just("reset")), st.tuples(st.just("central")),
    st.tuples(st.just("direct"), st.integers(0, 20), st.integers(-30, 30)),
    st.tuples(st.just("reload"), st.lists(st.integers(1, 300), min_size=1, max_size=4, unique=True)),
)


@st.composite
def history(draw):
    return {"coll": draw(pl.collection()), "ops": draw(ops_list(OPS, 1, 12)), "arr": draw(st.booleans())}


def check_values(coll, vals, what):
    got = {n: float(p.current_value) for n, p in coll.items()}
    eq(sorted(got), sorted(vals), f"{what}: parameters")
    for n in vals:
        close(got[n], vals[n], f"{what}: current value of {n}", rtol=1e-14, atol=1e-15)


@CHECK.prop(history(), quick=300, thorough=8000, rule="at least two selections of different parameters")
def selection_history(case, ctx):
    c = case["coll"]
    coll = pl.build(c, as_array=case["arr"])
    ps = {p["name"]: p for p in c["params"]}
    vals = {n: (p["current"] if p["current"] is not None else p["fiducial"]) for n, p in ps.items()}
    disps = sorted([-d for d in c["disps"]] + list(c["disps"]))
    seen = set()
    ctx.label("flat" if c["flat"] else "not flat")
    check_values(coll, vals, "new collection")
    for op in case["ops"]:
        ctx.label(op[0])
        n = len(disps) // 2
        steps = list(range(-n, 0)) + list(range(1, n + 1))
        table = dict(zip(steps, disps))
        if op[0] == "step":
            names = sorted(ps)
            name, step = names[op[1] % len(names)], steps[op[2] % len(steps)]
            p = ps[name]
            if not p["free"]:
                raises(pl.ParameterError, lambda: coll.updatePhysicalParametersForDvarStep(name, step),
                       f"displacing the fixed parameter {name}")
            else:
                coll.updatePhysicalParametersForDvarStep(dvar=name, step=step)
                vals[name] = pl.displaced(p, table[step])
                if c["flat"] and name in ("Omm", "OmDE"):
                    vals["OmDE" if name == "Omm" else "Omm"] = 1 - vals[name]
                    ctx.label("flat coupling")
                    close(coll["Omm"].current_value + coll["OmDE"].current_value, 1.0, "OmegaM + OmegaDE", rtol=1e-12)
                seen.add(name)
                ctx.nontrivial(len(seen) >= 2)
        elif op[0] in ("reset", "central"):
            if op[0] == "reset":
                coll.resetPhysicalParametersToFiducial()
            else:
                coll.updatePhysicalParametersForDvarStep(dvar="central", step=0)
            vals = {k: p["fiducial"] for k, p in ps.items()}
        elif op[0] == "direct":
            names = sorted(ps)
            name = names[op[1] % len(names)]
            coll[name].updateValueForDisplacement(op[2] / 100)
            vals[name] = pl.displaced(ps[name], op[2] / 100)
        else:
            new = [d / 1000 for d in op[1]]
            coll.loadStemDisplacements(new if case["arr"] else np.array(new))
            disps = sorted([-d for d in new] + new)
        check_values(coll, vals, f"after {op}")
        for k, p in ps.items():
            eq((coll[k].fiducial, bool(coll[k].is_free_parameter), coll[k].stem_factor, coll[k].kind),
               (p["fiducial"], p["free"], p["stem_factor"], p["kind"]), f"after {op}: immutable attributes of {k}")


@CHECK.prop(pl.collection(), quick=200, thorough=4000, rule="at least two displacements and a parameter with stem factor != 1")
def stencils(c, ctx):
    coll = pl.build(c)
    n = len(c["disps"])
    disps = sorted([-d for d in c["disps"]] + list(c["disps"]))
    ctx.nontrivial(n >= 2 and any(p["stem_factor"] != 1 for p in c["params"]))
    eq([float(x) for x in coll.stem_disps], disps, "displacements are the given ones with both signs, sorted")
    eq([int(s) for s in coll.stem_steps], list(range(-n, 0)) + list(range(1, n + 1)), "steps")
    eq({int(k): float(v) for k, v in coll.stem_dict.items()},
       dict(zip(list(range(-n, 0)) + list(range(1, n + 1)), disps)), "step to displacement map")
    for k, v in coll.stem_dict.items():
        eq(int(coll.inv_stem_dict[v]), int(k), "displacement to step map")
        eq(float(coll.stem_dict[-k]), -float(v), "opposite steps have opposite displacements")
    for p in c["params"]:
        got = np.asarray(coll.computePhysParSTEMValues(p["name"]), dtype=float)
        want = [pl.displaced(p, e) for e in disps[:n]] + [p["fiducial"]] + [pl.displaced(p, e) for e in disps[n:]]
        close(got, want, f"stencil of {p['name']}", rtol=1e-14, atol=1e-300)
        check(got[n] == p["fiducial"], f"fiducial is the middle of the stencil of {p['name']}")
        for k, step in enumerate(list(range(-n, 0)) + [0] + list(range(1, n + 1))):
            if step:
                close(coll[p["name"]].computeValueForDisplacement(coll.stem_dict[step]), got[k],
                      f"value of step {step}", rtol=1e-14)
        d = np.diff(got)
        if p["stem_factor"] * (p["fiducial"] or 1) > 0 and abs(p["fiducial"]) > 1e-12:
            check(bool(np.all(d > 0)), f"stencil of {p['name']} increases")
        eq(coll[p["name"]].current_value, p["current"] if p["current"] is not None else p["fiducial"],
           "computing a stencil does not move the parameter")


@CHECK.prop(st.fixed_dictionaries({"c": pl.collection(flat=True), "off": st.sampled_from([0.1, -0.1, 0.01, -0.003, 1.5]), "which": st.sampled_from(["Omm", "OmDE"]), "step": st.sampled_from([-1, 1])}), quick=40, thorough=500)
def flatness_needs_fiducials_that_add_up(case, ctx):
    """in a flat Universe neither density is displaced if they do not add up to one, or if both are free"""
    c = case["c"]
    ctx.nontrivial()
    other = {"Omm": "OmDE", "OmDE": "Omm"}[case["which"]]
    for p in c["params"]:
        if p["name"] == case["which"]:
            p["free"] = True
        if p["name"] == other:
            p["free"] = False
    good = pl.build(c)
    good.updatePhysicalParametersForDvarStep(dvar=case["which"], step=case["step"])
    close(good["Omm"].current_value + good["OmDE"].current_value, 1.0, "OmegaM + OmegaDE", rtol=1e-12)
    bad = pl.build({**c, "params": [dict(p, fiducial=p["fiducial"] + case["off"]) if p["name"] == other else p for p in c["params"]]})
    raises(pl.ParameterError, lambda: bad.updatePhysicalParametersForDvarStep(dvar=case["which"], step=case["step"]), "densities that do not add up to one")
    both = pl.build({**c, "params": [dict(p, free=True) if p["name"] == other else p for p in c["params"]]})
    raises(pl.ParameterError, lambda: both.updatePhysicalParametersForDvarStep(dvar=case["which"], step=case["step"]), "both densities free")


@CHECK.prop(st.tuples(st.sampled_from(["name", "fiducial", "free", "kind", "probe"]), st.integers(0, 3)), quick=20, rule="all")
def invalid_parameters_are_refused(case, ctx):
    what, k = case
    ctx.nontrivial()
    kw = dict(name="w0", fiducial=-1.0, kind=pl.C, is_free_parameter=True)
    bad = {"name": [3, None, 1.5, True], "fiducial": [None, "1", 1, [1.0]], "free": [None, "yes", 1, 0.0],
           "kind": ["cosmo", None, "", "nuisance"], "probe": [None] * 4}[what][k]
    if what == "probe":
        kw["kind"] = pl.N
        kw["probe"] = bad
    else:
        kw[{"free": "is_free_parameter"}.get(what, what)] = bad
    raises((TypeError, ValueError), lambda: pl.PhysicalParameter(**kw), f"parameter with {what}={bad!r}")

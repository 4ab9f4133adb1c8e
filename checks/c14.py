"""C14: Fisher evaluation."""
from covlib import *
from seyfert.cosmology.parameter import PhysicalParametersCollection
from seyfert.derivatives.cl_derivative import ClDerivative, ClDerivativeCollector
from seyfert.fisher.fisher_evaluator import FisherEvaluator, MultipoleError, compute_fisher_matrix

CHECK = Check("C14", ["Multipoles are those of the noisy spectra; the Fisher matrices of the single probes handed over as exclusive contributions are "
                      "those of the same survey."])
COSMO = ["Omm", "w0", "h", "sigma8"]


@st.composite
def case_(draw):
    u = draw(universe(nl=(1, 3)))
    pars = []
    for n in draw(st.permutations(COSMO))[:draw(st.integers(1, 3))]:
        pars.append([n, None, draw(st.integers(0, 3)) > 0])
    for p in PROBES:
        for k in range(draw(st.integers(0, 2))):
            pars.append([f"{PREFIX.get(p, 'aIA')}{k}", p, draw(st.integers(0, 2)) > 0])
    if not any(free and probe is None for _, probe, free in pars):
        pars[0][2] = True
    return {"u": u, "vec": draw(vector(u["probes"])), "pars": draw(st.permutations(pars)), "seed": draw(st.integers(0, 10 ** 6)), "zero": draw(st.integers(0, 3)) == 0,
            "stored": draw(st.integers(0, 4)) == 0, "flip": draw(st.integers(0, 1023))}


def parameters(case):
    return PhysicalParametersCollection(data_dict={n: PhysicalParameter(name=n, fiducial=1.0, kind=PhysicalParameter.NUISANCE_PAR_STRING if p else
                                                                        PhysicalParameter.COSMO_PAR_STRING, probe=p, is_free_parameter=f)
                                                   for n, p, f in case["pars"]})


def derivatives(case, zero=()):
    """{parameter: {(a, b): {l: matrix}}} in both orders"""
    u, out = case["u"], {}
    for n, (name, probe, _) in enumerate(case["pars"]):
        d = {}
        for i, a in enumerate(u["probes"]):
            for b in u["probes"][i:]:
                na, nb = u["cfg"][a]["n"], u["cfg"][b]["n"]
                for k, l in enumerate(ells_of(u, a, b)):
                    M = lcg(case["seed"] + 7919 * n + 101 * k + len(a) * 13 + len(b), na * nb).reshape(na, nb) * amp(u, a) * amp(u, b)
                    if a == b:
                        M = M + M.T
                    if (probe is not None and probe not in (a, b)) or name in zero:
                        M = np.zeros((na, nb))
                    d.setdefault((a, b), {})[l] = M
                    d.setdefault((b, a), {})[l] = M.T
        out[name] = d
    return out


def collectors(case, d, ctx=None):
    out = {}
    u = dict(case["u"], flip=case["flip"])
    for name in d:
        c = ClDerivativeCollector(dvar=name)
        for a, b in stored_pairs(u):
            x = ClDerivative(p1=a, p2=b)
            x.l_bin_centers = ells_of(u, a, b)
            x.dc_lij = np.array([d[name][a, b][l] for l in x.l_bin_centers])
            c.dcl_dict[f"{a}_{b}"] = x
        if ctx is not None and case["stored"]:
            f = ctx.tmp() / "der.h5"
            c.writeToFile(f)
            c = ClDerivativeCollector.fromHDF5(f, dvar=name)
        out[name] = c
    return out


def free_names(case, vec):
    inv = involved(vec)
    return [n for n, p, f in case["pars"] if f and (p is None or p in inv)]


def fisher_l(case, J, d, vec, l):
    u = case["u"]
    lay = layout(u, vec)
    cov = covariance_ref(u, J, vec, l)
    names = free_names(case, vec)
    s = row_amplitudes(u, vec)
    V = np.array([[d[n][vec[e][0], vec[e][1]][l][i, j] for e, i, j in lay] for n in names]) / s
    return names, V @ np.linalg.solve(cov / np.outer(s, s), V.T)


def expected(case, J, d, vec):
    names = free_names(case, vec)
    F = {(a, b): 0.0 for a in names for b in names}
    common = ells_of(case["u"], *involved(vec))
    parts = [(vec, common)]
    if not (len(vec) == 1 and vec[0][0] == vec[0][1]):
        for p, q, _ in vec:
            if p == q:
                parts.append(([[p, p, "long"]], [l for l in ells_of(case["u"], p) if l not in common]))
    for v, ells in parts:
        for l in ells:
            nm, M = fisher_l(case, J, d, v, l)
            for i, a in enumerate(nm):
                for j, b in enumerate(nm):
                    F[a, b] += M[i, j]
    return names, np.array([[F[a, b] for b in names] for a in names])


def auto_fishers(case, J, D, cols, vec):
    """of every probe of the survey, also those whose auto-spectrum is not in the data vector"""
    out = {}
    for p in case["u"]["probes"]:
        fe = FisherEvaluator([spell(p, p, "long")])
        _, fl = fe.computeFisherMatrix(phys_pars=parameters(case), dcoll_dvar_dict=cols, delta_cls=D, return_f_ell=True)
        out[ALIAS[p]] = fl
    return out


def run(case, J, d, vec, ctx=None):
    D = collection(case["u"], J)
    cols = collectors(case, d, ctx)
    fe = FisherEvaluator([spell(*e) for e in vec])
    return fe, *fe.computeFisherMatrix(phys_pars=parameters(case), dcoll_dvar_dict=cols, delta_cls=D, return_f_ell=True,
                                       auto_f_ells=auto_fishers(case, J, D, cols, vec))


@CHECK.prop(case_(), quick=150, thorough=4000, rule="two or more free parameters and several spectra")
def likelihood_fisher(case, ctx):
    u, vec = case["u"], case["vec"]
    J, _, _ = joint(u)
    zero = [case["pars"][0][0]] if case["zero"] else []
    d = derivatives(case, zero)
    fe, F, fl = run(case, J, d, vec, ctx)
    names, want = expected(case, J, d, vec)
    ctx.nontrivial(len(names) > 1 and len(vec) > 1)
    ctx.label(f"{len(vec)} entries", f"{min(len(names), 5)} parameters", "stored" if case["stored"] else "in memory")
    eq(sorted(F.index), sorted(names), "parameters of the Fisher matrix")
    eq(sorted(F.columns), sorted(names), "parameters of the Fisher matrix")
    got = F.loc[names, names].to_numpy()
    close_scaled(got, want, "Fisher matrix", tol=1e-8)
    check(np.array_equal(got, got.T), "symmetric")
    check(np.linalg.eigvalsh(got)[0] >= -1e-9 * np.max(np.abs(got)), "positive semi-definite")
    for z in zero:
        if z in names:
            check(not np.any(F.loc[z].to_numpy()), f"zero derivative with respect to {z}")
    common = ells_of(u, *involved(vec))
    same_bits(np.array(fl.index), common, "multipoles")
    for l in common:
        nm, M = fisher_l(case, J, d, vec, l)
        got = np.array([[fl.loc[l, (a, b)] for b in nm] for a in nm])
        close_scaled(got, M, f"Fisher at l={l}", tol=1e-8)


@CHECK.prop(case_(), quick=60, thorough=1500, rule="several spectra")
def metamorphic(case, ctx):
    """order and notation of the data vector; quadratic in the derivatives; function form"""
    u, vec = case["u"], case["vec"]
    J, _, _ = joint(u)
    d = derivatives(case)
    ctx.nontrivial(len(vec) > 1)
    _, F, _ = run(case, J, d, vec)
    names = free_names(case, vec)
    F = F.loc[names, names].to_numpy()
    new = [[b, a, ["long", "short", "alias"][k % 3]] for k, (a, b, _) in enumerate(reversed(vec))]
    _, G, _ = run(case, J, d, new)
    close_scaled(G.loc[names, names].to_numpy(), F, "reversed data vector with swapped probes", tol=1e-8)
    one = case["seed"] % len(names)
    e = {n: ({k: {l: 3 * m for l, m in v.items()} for k, v in d[n].items()} if n == names[one] else d[n]) for n in d}
    _, G, _ = run(case, J, e, vec)
    s = np.ones(len(names))
    s[one] = 3
    close_scaled(G.loc[names, names].to_numpy(), F * np.outer(s, s), "one derivative three times as large", tol=1e-9)
    K = {k: {l: 2 * m for l, m in v.items()} for k, v in J.items()}
    D, cols = collection(u, K), collectors(case, d)
    H = compute_fisher_matrix([spell(*x) for x in vec], parameters(case), cols, D, auto_f_ells=auto_fishers(case, K, D, cols, vec))
    close_scaled(H.loc[names, names].to_numpy(), F / 4, "twice the noisy spectra", tol=1e-9)


@CHECK.prop(case_(), quick=60, thorough=1000, rule="always")
def inconsistent_multipoles(case, ctx):
    """derivatives on other multipoles than the covariance are refused"""
    u, vec = case["u"], case["vec"]
    J, _, _ = joint(u)
    D = collection(u, J)
    cols = collectors(case, derivatives(case))
    ctx.nontrivial()
    names = free_names(case, vec)
    which = case["seed"] % 2
    for n in (names if which else [names[case["seed"] // 2 % len(names)]]):
        for x in cols[n].dcl_dict.values():
            x.l_bin_centers = x.l_bin_centers + 1.0
    ctx.label("all parameters" if which else "one parameter")
    fe = FisherEvaluator([spell(*e) for e in vec])
    raises((MultipoleError, ValueError), lambda: fe.computeFisherMatrix(phys_pars=parameters(case), dcoll_dvar_dict=cols, delta_cls=D,
                                                                       auto_f_ells={}), "derivatives shifted in multipole")
    if not (len(vec) == 1 and vec[0][0] == vec[0][1]):
        fe = FisherEvaluator([spell(*e) for e in vec])
        raises(ValueError, lambda: fe.computeFisherMatrix(phys_pars=parameters(case), dcoll_dvar_dict=collectors(case, derivatives(case)), delta_cls=D),
               "no single probe contributions")

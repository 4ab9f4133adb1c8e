"""C13: covariance of the spectra."""
from covlib import *
from seyfert.fisher.datavector import ClDataVector
from seyfert.fisher.fisher_evaluator import ClCovarianceMatrix
from seyfert.utils.shortcuts import ClKey, ClSmartKeyDict, SmartKeyDict

CHECK = Check("C13", ["The multipoles of a cross-spectrum are those common to the ranges of its two probes, as the code of the forecast configuration prescribes."])


@st.composite
def case_(draw):
    u = draw(universe())
    return {"u": u, "vec": draw(vector(u["probes"])), "perm": draw(st.integers(0, 10 ** 6)), "inmem": draw(st.booleans())}


def build(u, J, vec, ctx=None, stored=False):
    D = collection(u, J)
    if stored:
        f = ctx.tmp() / "d.h5"
        for b in D.single_blocks.values():
            b.c_lij = b.delta_c_lij
        D.fisher_cfg = None
        for n, (k, b) in enumerate(D.single_blocks.items()):
            if b.probe_1 == b.probe_2:
                D[b.probe_1] = b
        D.saveToHDF5(f)
        D = DeltaClCollection.fromHDF5(f)
    cov = ClCovarianceMatrix(ClDataVector([spell(*e) for e in vec]))
    cov.evaluateAllBlocks(D)
    cov.maskCovBlocksToCommonElls()
    cov.buildMatrix()
    cov.evaluateInverse()
    return cov


@CHECK.prop(case_(), quick=250, thorough=6000, rule="a data vector with a cross-spectrum of several bins or several entries")
def gaussian_formula(case, ctx):
    u, vec = case["u"], case["vec"]
    J, full, off = joint(u)
    cov = build(u, J, vec, ctx, stored=not case["inmem"])
    ells = ells_of(u, *involved(vec))
    lay = layout(u, vec)
    ctx.nontrivial(len(vec) > 1 or (vec[0][0] != vec[0][1] and len(lay) > 1))
    ctx.label(f"{len(vec)} entries", f"{len(u['probes'])} probes", "in memory" if case["inmem"] else "stored")
    same_bits(cov.common_ells, ells, "multipoles common to the spectra involved")
    M = cov.matrix
    s = row_amplitudes(u, vec)
    eq(M.shape, (len(ells), len(lay), len(lay)), "one row per element of the data vector")
    for k, l in enumerate(ells):
        want = covariance_ref(u, J, vec, l) / np.outer(s, s)
        m = M[k] / np.outer(s, s)
        close_scaled(m, want, f"covariance at l={l}", tol=1e-12)
        close_scaled(m, m.T, "symmetric", tol=1e-13)
        check(np.linalg.eigvalsh((want + want.T) / 2)[0] > 0, "positive definite")
        check(np.linalg.eigvalsh((m + m.T) / 2)[0] > 0, "positive definite")
        close((cov.inverse[k] * np.outer(s, s)) @ m, np.eye(len(lay)), "inverse", rtol=0, atol=1e-6)


@CHECK.prop(case_(), quick=120, thorough=3000, rule="several entries")
def order_and_notation(case, ctx):
    """permuting the data vector, swapping or respelling an entry permutes the covariance"""
    u, vec = case["u"], case["vec"]
    J, _, _ = joint(u)
    x = case["perm"]
    perm = list(range(len(vec)))
    for i in range(len(perm) - 1, 0, -1):
        x, k = divmod(x, i + 1)
        perm[i], perm[k] = perm[k], perm[i]
    new = []
    for n, e in enumerate(perm):
        a, b, kind = vec[e]
        if (x >> n) & 1:
            a, b = b, a
        new.append([a, b, ["long", "short", "alias"][(x + n) % 3]])
    ctx.nontrivial(len(vec) > 1 or new != vec)
    A, B = build(u, J, vec), build(u, J, new)
    same_bits(A.common_ells, B.common_ells, "multipoles")
    # position in A of each element of B
    pos = {}
    for r, (e, i, j) in enumerate(layout(u, vec)):
        a, b, _ = vec[e]
        pos[a, i, b, j] = r
        pos[b, j, a, i] = r
    idx = [pos[new[e][0], i, new[e][1], j] for e, i, j in layout(u, new)]
    s = np.outer(row_amplitudes(u, new), row_amplitudes(u, new))
    close_scaled(B.matrix / s, A.matrix[:, idx][:, :, idx] / s, "covariance of the reordered data vector", tol=1e-12)


@CHECK.prop(case_(), quick=60, thorough=1500, rule="always")
def scaling(case, ctx):
    """quadratic in the noisy spectra; unaffected by the spectra which are not involved"""
    u, vec = case["u"], case["vec"]
    ctx.nontrivial()
    J, _, _ = joint(u)
    A = build(u, J, vec)
    B = build(u, {k: {l: 3 * m for l, m in v.items()} for k, v in J.items()}, vec)
    s = np.outer(row_amplitudes(u, vec), row_amplitudes(u, vec))
    close_scaled(B.matrix / s, 9 * A.matrix / s, "three times the spectra", tol=1e-12)
    inv = set(involved(vec))
    K = {k: ({l: 77 + m for l, m in v.items()} if not set(k) <= inv else v) for k, v in J.items()}
    same_bits(build(u, K, vec).matrix, A.matrix, "changing the spectra of other probes")


@CHECK.prop(case_(), quick=80, thorough=2000, rule="two probes with different multipoles")
def single_block(case, ctx):
    """one block of the covariance, on the multipoles common to the four spectra it is made of"""
    u = case["u"]
    J, _, _ = joint(u)
    D = collection(u, J)
    vec = (case["vec"] * 2)[:2]
    ctx.nontrivial(len({(c["lo"], c["hi"]) for c in u["cfg"].values()}) > 1)
    sl, sd = SmartKeyDict(D.ell_dict), ClSmartKeyDict(D.delta_c_lij_array_dict)
    ells, blk = ClCovarianceMatrix.computeCovBlock(ClKey(spell(*vec[0])), ClKey(spell(*vec[1])), sl, sd)
    same_bits(ells, ells_of(u, *involved(vec)), "multipoles of the block")
    n0 = len(layout(u, vec[:1]))
    for k, l in enumerate(ells):
        s = row_amplitudes(u, vec)
        s = np.outer(s[:n0], s[n0:])
        close_scaled(blk[k] / s, covariance_ref(u, J, vec, l)[:n0, n0:] / s, "block", tol=1e-12)

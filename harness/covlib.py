"""Synthetic noisy spectra, data vectors and derivatives."""
from coslib import *
from seyfert.fisher.delta_cl import DeltaCl, DeltaClCollection

SHORT = {"PhotometricGalaxy": "ph", "SpectroscopicGalaxy": "sp", "Lensing": "wl", "Void": "vd"}


def spell(p1, p2, kind):
    if kind == "long":
        return f"{p1}_{p2}"
    if kind == "short":
        return SHORT[p1] + SHORT[p2]
    return (ALIAS[p1], ALIAS[p2])


@st.composite
def vector(draw, probes, lo=1, hi=6):
    """data vector: distinct spectra in any order and notation: [[probe, probe, kind], ...]"""
    pairs = [(a, b) for i, a in enumerate(probes) for b in probes[i:]]
    sel = draw(st.permutations(pairs))[:draw(st.sampled_from([n for n in (2, 3, 1, 4, 2, 6, 3, 10) if n <= len(pairs) and lo <= n <= hi] or [1]))]
    out = []
    for a, b in sel:
        if draw(st.booleans()):
            a, b = b, a
        out.append([a, b, draw(st.sampled_from(["long", "short", "alias"]))])
    return out


@st.composite
def universe(draw, nprobes=(1, 2, 3, 2, 3, 4), nmax=3, nl=(1, 4)):
    """probes with their bins and multipole ranges; the stored orientation of each cross-spectrum"""
    probes = list(draw(st.permutations(PROBES)))[:draw(st.sampled_from(nprobes))]
    l0, common = draw(st.integers(5, 60)), draw(st.integers(*nl))
    cfg = {p: {"n": draw(st.integers(1, nmax)), "lo": l0 - draw(st.integers(0, 3)), "hi": l0 + common + draw(st.integers(0, 3))} for p in probes}
    if draw(st.integers(0, 2)) == 0:  # irregular multipoles (external multipole files): every probe misses some, never l0
        for p in probes:
            cfg[p]["gaps"] = [l for l in draw(st.lists(st.integers(l0 - 3, l0 + common + 3), max_size=4)) if l != l0]
    return {"probes": probes, "cfg": cfg, "flip": draw(st.integers(0, 1023)), "seed": draw(st.integers(0, 10 ** 6)), "step": draw(st.sampled_from([1, 1, 7.25, 0.25])),
            "amp": {p: draw(st.sampled_from([0, 0, 4, 8])) for p in probes}}


def ells_of(u, *probes):
    lo, hi = max(u["cfg"][p]["lo"] for p in probes), min(u["cfg"][p]["hi"] for p in probes)
    gone = [l for p in probes for l in u["cfg"][p].get("gaps", [])]
    return (np.array([l for l in range(lo, hi) if l not in gone]) + 0.5) * u["step"]


def amp(u, p):
    return 2.0 ** -u.get("amp", {}).get(p, 0)


def row_amplitudes(u, vector):
    """order of magnitude (a power of two) of each element of the data vector"""
    return np.array([amp(u, vector[e][0]) * amp(u, vector[e][1]) for e, _, _ in layout(u, vector)])


def joint(u, seed_shift=0):
    """noisy spectra of all pairs (both orders), positive definite jointly at every multipole; keyed by (p1, p2) -> {l: matrix}"""
    probes = u["probes"]
    n = [u["cfg"][p]["n"] for p in probes]
    off = np.concatenate([[0], np.cumsum(n)])
    N = off[-1]
    lo, hi = min(c["lo"] for c in u["cfg"].values()), max(c["hi"] for c in u["cfg"].values())
    full = {}
    for k, l in enumerate((np.arange(lo, hi) + 0.5) * u["step"]):
        A = lcg(u["seed"] + 1000 * k + seed_shift, N * N).reshape(N, N)
        full[l] = (A @ A.T + N * 0.4 * np.eye(N)) * (1 + 0.1 * k)
    s = np.concatenate([np.full(m, amp(u, p)) for p, m in zip(probes, n)])
    full = {l: F * np.outer(s, s) for l, F in full.items()}  # the probes have spectra of different orders of magnitude
    out = {}
    for i, a in enumerate(probes):
        for j, b in enumerate(probes):
            out[a, b] = {l: full[l][off[i]:off[i + 1], off[j]:off[j + 1]] for l in ells_of(u, a, b)}
    return out, full, off


def stored_pairs(u):
    """(p1, p2) in the order in which each spectrum is stored"""
    out, k = [], 0
    for i, a in enumerate(u["probes"]):
        for b in u["probes"][i:]:
            out.append((b, a) if (u["flip"] >> k) & 1 else (a, b))
            k += 1
    return out


def collection(u, J):
    D = DeltaClCollection()
    for a, b in stored_pairs(u):
        d = DeltaCl(name=f"{a}_{b}")
        d.probe_1, d.probe_2 = a, b
        d.l_bin_centers = ells_of(u, a, b)
        d.delta_c_lij = np.array([J[a, b][l] for l in d.l_bin_centers])
        D.single_blocks[f"{a}_{b}"] = d
    return D


def layout(u, vector):
    """elements of the data vector in order: (entry, i, j); auto-spectra: upper triangle by columns"""
    out = []
    for e, (a, b, _) in enumerate(vector):
        for j in range(u["cfg"][b]["n"]):
            for i in range(u["cfg"][a]["n"]):
                if a != b or i <= j:
                    out.append((e, i, j))
    return out


def covariance_ref(u, J, vector, l):
    lay = layout(u, vector)
    M = np.empty((len(lay), len(lay)))
    for r, (e, i, j) in enumerate(lay):
        A, B, _ = vector[e]
        for c, (f, k, m) in enumerate(lay):
            C, D, _ = vector[f]
            M[r, c] = (J[A, C][l][i, k] * J[B, D][l][j, m] + J[A, D][l][i, m] * J[B, C][l][j, k]) / (2 * l + 1)
    return M


def involved(vector):
    return sorted({p for a, b, _ in vector for p in (a, b)})

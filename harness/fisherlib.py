"""Generators and a reference model for Fisher matrices (shared by C15-C18)."""
from pbt import *
import pandas as pd
from seyfert.fisher.fisher_matrix import FisherMatrix

COSMO = ["Omm", "Omb", "w0", "wa", "h", "ns", "sigma8", "gamma"]
NUIS = ["bgph1", "bgph2", "bgph10", "bgsp1", "bgsp2", "aIA", "etaIA"]
KIND = {**{p: "c" for p in COSMO}, **{p: "n" for p in NUIS}}
NAMES = ["[WL]", "[GCph]", "[GCsp]", "[WL+GCph]", "[WL+GCph+XC(WL,GCph)]", "[GCsp(Pk)]", "[XC(GCph,GCsp)]"]


@st.composite
def fisher(draw, min_c=1, max_c=5, max_n=4, name=None, posdef=False, need=()):
    cos = draw(st.lists(st.sampled_from(COSMO), min_size=min_c, max_size=max_c, unique=True))
    cos += [p for p in need if p not in cos]
    nui = draw(st.lists(st.sampled_from(NUIS), min_size=0, max_size=max_n, unique=True))
    order = draw(st.permutations(cos + nui))
    n = len(order)
    ints = draw(st.lists(st.integers(-4, 4), min_size=n * n, max_size=n * n))
    scale = draw(st.sampled_from([1.0, 4.0, 0.25]))
    return {"name": name or draw(st.sampled_from(NAMES)), "params": list(order), "ints": ints, "scale": scale,
            "posdef": posdef}


def data(case):
    n = len(case["params"])
    B = np.array(case["ints"], dtype=float).reshape(n, n)
    if case["posdef"]:
        return case["scale"] * (B.T @ B + 2 * n * np.eye(n))
    return case["scale"] * (B + B.T)


def build(case, marginalize=True):
    M = data(case)
    df = pd.DataFrame(M, index=list(case["params"]), columns=list(case["params"]))
    return FisherMatrix(matrix_df=df, name=case["name"],
                        cosmological_parameters={p for p in case["params"] if KIND[p] == "c"},
                        nuisance_parameters={p for p in case["params"] if KIND[p] == "n"},
                        marginalize_nuisance=marginalize)


class Model:
    """Fisher matrix as a mapping (a, b) -> value; parameters classified by KIND."""

    def __init__(self, name, params, M, marginalize=True):
        self.name, self.params, self.marginalize = name, list(params), marginalize
        self.M = np.array(M, dtype=float)

    @classmethod
    def of(cls, case, marginalize=True):
        return cls(case["name"], case["params"], data(case), marginalize)

    def copy(self):
        return Model(self.name, self.params, self.M.copy(), self.marginalize)

    def on(self, params):
        """the matrix on the given parameter list, zero padded"""
        out = np.zeros((len(params), len(params)))
        pos = {p: i for i, p in enumerate(self.params)}
        for i, a in enumerate(params):
            for j, b in enumerate(params):
                if a in pos and b in pos:
                    out[i, j] = self.M[pos[a], pos[b]]
        return out

    def combine(self, other, sign):
        params = self.params + [p for p in other.params if p not in self.params]
        return Model(f"{self.name} {'+' if sign > 0 else '-'} {other.name}", params,
                     self.on(params) + sign * other.on(params))

    def fix(self, drop):
        keep = [p for p in self.params if p not in drop]
        self.M, self.params = self.on(keep), keep

    def prior(self, sigmas):
        for p, s in sigmas.items():
            i = self.params.index(p)
            self.M[i, i] += 1 / s ** 2

    def inverse(self):
        return np.linalg.inv(self.M)

    def marginalise(self, drop):
        keep = [p for p in self.params if p not in drop]
        if len(keep) < len(self.params):
            k = [self.params.index(p) for p in keep]
            d = [self.params.index(p) for p in self.params if p in drop]
            A, Bm, D = self.M[np.ix_(k, k)], self.M[np.ix_(k, d)], self.M[np.ix_(d, d)]
            self.M = A - Bm @ np.linalg.solve(D, Bm.T)  # Schur complement, independent of inverse-slice-inverse
        else:
            self.M = self.on(keep)
        self.params = keep

    @property
    def cosmo(self):
        return {p for p in self.params if KIND[p] == "c"}

    @property
    def nuis(self):
        return {p for p in self.params if KIND[p] == "n"}

    def cov(self, a, b):
        C = self.inverse()
        return C[self.params.index(a), self.params.index(b)]

    def fom(self, a="w0", b="wa"):
        C = self.inverse()
        k = [self.params.index(a), self.params.index(b)]
        return 1 / np.sqrt(np.linalg.det(C[np.ix_(k, k)]))


def compare(F, model, what, tol=0.0):
    df = F.matrix
    eq(sorted(df.index), sorted(model.params), f"{what}: row labels")
    eq(sorted(df.columns), sorted(model.params), f"{what}: column labels")
    ps = model.params
    got = df.loc[ps, ps].to_numpy(dtype=float)
    if tol == 0:
        same_bits(got, model.M, f"{what}: entries of {ps}")
    else:
        close_scaled(got, model.M, f"{what}: entries of {ps}", tol=tol)
    eq(set(F.cosmological_parameters), model.cosmo, f"{what}: cosmological parameters")
    eq(set(F.nuisance_parameters), model.nuis, f"{what}: nuisance parameters")
    eq(set(F.physical_parameters), model.cosmo | model.nuis, f"{what}: physical parameters")
    eq(F.name, model.name, f"{what}: name")

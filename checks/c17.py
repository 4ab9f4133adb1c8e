"""C17: Fisher matrices survive storage; writing never clobbers a file unless asked to."""
from pathlib import Path
from pbt import *
import pandas as pd
import fisherlib as fl
from fisherlib import FisherMatrix
from seyfert.fisher.fisher_analysis import FisherAnalysis

CHECK = Check("C17", ["CSV files carry the matrix only; name and classification are arguments of the reader."])

VAL = st.one_of(st.integers(-5, 5).map(float), finite(-1e12, 1e12), finite(-1e-9, 1e-9))
NAME = st.one_of(st.sampled_from(fl.NAMES + ["[WL] + [GCph]", "[WL+GCph+XC(WL,GCph)] - [GCph]"]),
                 st.text(alphabet="ABCabc01 _+-[](),", min_size=1, max_size=12),
                 st.text(alphabet="αβ∂é'\"b", min_size=1, max_size=6))


@st.composite
def stored(draw):
    cos = draw(st.lists(st.sampled_from(fl.COSMO), min_size=0, max_size=6, unique=True))
    nui = draw(st.lists(st.sampled_from(fl.NUIS), min_size=0 if cos else 1, max_size=5, unique=True))
    ps = list(draw(st.permutations(cos + nui)))
    n = len(ps)
    return {"name": draw(NAME), "params": ps, "vals": draw(vec(n * n, VAL))}


def build(c):
    n = len(c["params"])
    M = np.array(c["vals"]).reshape(n, n)
    return FisherMatrix(matrix_df=pd.DataFrame(M, index=c["params"], columns=c["params"]), name=c["name"],
                        cosmological_parameters={p for p in c["params"] if fl.KIND[p] == "c"},
                        nuisance_parameters={p for p in c["params"] if fl.KIND[p] == "n"}), M


def same(F, c, M, what):
    eq(F.name, c["name"], f"{what}: name")
    eq([str(type(x).__name__) + x for x in F.matrix.index], ["str" + p for p in c["params"]], f"{what}: rows")
    eq(list(F.matrix.columns), c["params"], f"{what}: columns")
    same_bits(F.matrix.to_numpy(), M, f"{what}: entries")
    eq(set(F.cosmological_parameters), {p for p in c["params"] if fl.KIND[p] == "c"}, f"{what}: cosmological set")
    eq(set(F.nuisance_parameters), {p for p in c["params"] if fl.KIND[p] == "n"}, f"{what}: nuisance set")


@CHECK.prop(stored(), quick=200, thorough=4000, rule="at least two parameters")
def hdf5_round_trip(c, ctx):
    F, M = build(c)
    ctx.nontrivial(len(c["params"]) >= 2)
    ctx.label("no nuisance" if not F.nuisance_parameters else "nuisance",
              "no cosmology" if not F.cosmological_parameters else "cosmology")
    file = ctx.tmp() / "f.hdf5"
    F.writeToFile(outfile=file)
    same(F, c, M, "saved matrix")
    G = FisherMatrix.fromHDF5(file)
    same(G, c, M, "fromHDF5")
    check(bool(G == F), "reloaded matrix equals the saved one")
    H = FisherMatrix()
    H.loadFromFile(file, file_ext="hdf5")
    same(H, c, M, "loadFromFile")
    H.checkAttributes()
    # second generation
    file2 = file.with_name("g.hdf5")
    H.writeToFile(outfile=str(file2))
    same(FisherMatrix.fromHDF5(str(file2)), c, M, "second generation")


@CHECK.prop(stored(), quick=80, thorough=1500, rule="at least two parameters")
def csv_import(c, ctx):
    F, M = build(c)
    ctx.nontrivial(len(c["params"]) >= 2)
    file = ctx.tmp() / "my_fisher.csv"
    F.matrix.to_csv(file)
    G = FisherMatrix.fromCSV(file, cosmological_parameters=F.cosmological_parameters,
                             nuisance_parameters=F.nuisance_parameters)
    eq(G.name, "my_fisher", "name of a CSV matrix")
    H = FisherMatrix(name="x", cosmological_parameters=F.cosmological_parameters,
                     nuisance_parameters=F.nuisance_parameters)
    H.loadFromFile(file, file_ext="csv")
    for what, X in (("fromCSV", G), ("loadFromFile csv", H)):
        eq((list(X.matrix.index), list(X.matrix.columns)), (c["params"], c["params"]), f"{what}: labels")
        close(X.matrix.to_numpy(), M, f"{what}: entries", rtol=5e-12)  # what pandas keeps of the digits of 0.0001...
        X.checkAttributes()
    raises(Exception, lambda: H.loadFromFile(file, file_ext="txt"), "unsupported file kind")


OPS = st.one_of(
    st.tuples(st.just("write"), st.integers(0, 3), st.integers(0, 2), st.booleans(), st.booleans()),
    st.tuples(st.just("write_dir"), st.integers(0, 3), st.just(0), st.booleans(), st.booleans()),
    st.tuples(st.just("foreign"), st.integers(0, 2)),
    st.tuples(st.just("remove"), st.integers(0, 2)),
)


@st.composite
def histories(draw):
    n = draw(st.integers(1, 4))
    cs = [draw(stored()) for _ in range(n)]
    for k, c in enumerate(cs):
        c["name"] = fl.NAMES[draw(st.integers(0, 3))] if k else fl.NAMES[0]
    return {"cases": cs, "ops": draw(ops_list(OPS, 2, 9))}


ENTRIES = ["WL", "GCph", "GCsp", "V", "XC(WL,GCph)", "XC(WL,GCsp)", "XC(GCph,GCsp)", "XC(V,WL)", "XC(V,GCph)", "XC(V,GCsp)", "GCsp(Pk)"]


@st.composite
def names_(draw):
    """data vectors, their sums and differences"""
    vec = st.lists(st.sampled_from(ENTRIES), min_size=1, max_size=10, unique=True).map(lambda e: "[" + "+".join(e) + "]")
    pool = draw(st.lists(vec, min_size=2, max_size=4, unique=True))
    word = pool[0][1:-1].split("+")
    if len(word) > 1:
        pool += ["[" + "+".join(word[:-1]) + "]", "[" + word[-1] + "]", "[" + "+".join(word[:-1]) + "] + [" + word[-1] + "]"]
    for _ in range(draw(st.integers(0, 4))):
        pool.append(draw(st.sampled_from(pool)) + draw(st.sampled_from([" + ", " - "])) + draw(st.sampled_from(pool)))
    return sorted(n for n in set(pool) if len(n) <= 200)  # file systems have their limits


@CHECK.prop(names_(), quick=60, thorough=1500, rule="a data vector and a sum of the same entries, or a name of more than 60 characters")
def matrices_of_a_directory(names, ctx):
    """matrices written to one directory, named after their data vectors, are all found again"""
    ctx.nontrivial(any(len(n) > 60 for n in names) or any(" + " in n for n in names))
    d = ctx.tmp()
    for k, n in enumerate(names):
        FisherMatrix(matrix_df=pd.DataFrame([[1.0 + k]], index=["h"], columns=["h"]), name=n, cosmological_parameters={"h"},
                     nuisance_parameters=set()).writeToFile(outdir=d)
    an = FisherAnalysis(cosmo_pars_fiducial={"h": 0.67})
    an.loadBaseFishersFromDir(d)
    eq({n: float(F.matrix.loc["h", "h"]) for n, F in an.base_fishers.items()}, {n: 1.0 + k for k, n in enumerate(names)}, "matrices of the directory")


@CHECK.prop(histories(), quick=120, thorough=2500, rule="a write to a path which already exists")
def overwrite_history(case, ctx):
    d = ctx.tmp()
    mats = [build(c) for c in case["cases"]]
    files = {}  # path -> index of the matrix stored there, or bytes

    def verify(what):
        eq(sorted(p.name for p in d.iterdir()), sorted(p.name for p in files), f"{what}: files in the directory")
        for p, v in files.items():
            if isinstance(v, bytes):
                eq(p.read_bytes(), v, f"{what}: content of {p.name}")
            else:
                same(FisherMatrix.fromHDF5(p), case["cases"][v], mats[v][1], f"{what}: {p.name}")

    for op in case["ops"]:
        ctx.label(op[0])
        if op[0] in ("write", "write_dir"):
            k = op[1] % len(mats)
            F = mats[k][0]
            over, skip = op[3], op[4]
            if op[0] == "write":
                path = d / f"file{op[2]}.hdf5"
                do = lambda: F.writeToFile(outfile=path, overwrite=over, skip_if_exists=skip)  # noqa: E731
            else:
                path = d / F.getFilename()
                do = lambda: F.writeToFile(outdir=d, overwrite=over, skip_if_exists=skip)  # noqa: E731
            if path in files:
                ctx.nontrivial()
                if skip:
                    do()
                elif over:
                    do()
                    files[path] = k
                else:
                    raises(FileExistsError, do, f"{op} on an existing file")
            else:
                do()
                files[path] = k
        elif op[0] == "foreign":
            path = d / f"file{op[1]}.hdf5"
            path.write_bytes(b"precious")
            files[path] = b"precious"
        else:
            path = d / f"file{op[1]}.hdf5"
            if path in files:
                path.unlink()
                del files[path]
        verify(f"after {op}")


@CHECK.prop(st.lists(stored(), min_size=1, max_size=4), quick=60, thorough=1000, rule="at least two matrices")
def directory_of_matrices(cs, ctx):
    """saveFishersToDisk/loadBaseFishersFromDir give back every matrix under its own name."""
    names = ["[WL]", "[GCph]", "[WL+GCph+XC(WL,GCph)]", "[WL] + [GCph]"]
    d = ctx.tmp()
    an = FisherAnalysis(analysis_name="a")
    for k, c in enumerate(cs):
        c["name"] = names[k]
        if not any(fl.KIND[p] == "c" for p in c["params"]):
            c["params"][0] = "w0"
        an.fisher_matrices[c["name"]] = build(c)[0]
    ctx.nontrivial(len(cs) >= 2)
    an.saveFishersToDisk(d)
    eq(len(list(d.iterdir())), len(cs), "number of files")
    raises(FileExistsError, lambda: an.saveFishersToDisk(d), "saving twice without overwrite")
    an.saveFishersToDisk(d, overwrite=True)
    back = FisherAnalysis(analysis_name="b")
    back.loadBaseFishersFromDir(d)
    eq(sorted(back.base_fishers), sorted(c["name"] for c in cs), "names of the loaded matrices")
    for c in cs:
        F, M = build(c)
        G = back.base_fishers[c["name"]]
        eq(sorted(G.matrix.index), sorted(c["params"]), "parameters")
        same_bits(G.matrix.loc[c["params"], c["params"]].to_numpy(), M, "entries")
        eq(set(G.nuisance_parameters), set(F.nuisance_parameters), "nuisance parameters")
    raises(FileNotFoundError, lambda: back.loadBaseFishersFromDir(d / "nothing"), "loading from a missing directory")

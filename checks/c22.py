"""C22: structured storage never loses or overwrites data silently."""
import fcntl
import h5py
from coslib import *
import c21
from seyfert.config.main_config import config_for_task
from seyfert.cosmology import weight_functions as wfs
from seyfert.cosmology.kernel_functions import KernelFunction
from seyfert.cosmology.parameter import PhysicalParametersCollection
from seyfert.cosmology.c_ells import AngularCoefficientsCollector
from seyfert.file_io.hdf5_io import AbstractH5FileIO, H5FileModeError
from seyfert.file_io.json_io import JSONForecastConfig
from seyfert.fisher.delta_cl import DeltaCl

CHECK = Check("C22", ["A root holds one object (a cosmology with its power spectrum counts as one); roots of different objects may be nested.",
                      "A failed HDF5 save may leave incomplete new entries under its own root, never change existing ones."])

NAMES = st.sampled_from(["a", "b", "alpha", "xa", "c_lij", "A", "grp", "data 1", "bgph10"])


class Box:
    pass


class TreeIO(AbstractH5FileIO):
    """writes / reads a nested dictionary"""

    def __init__(self, **kw):
        super().__init__(**kw)
        self.builder_func = Box

    def writeObjectToFile(self, obj):
        self._put(obj.tree, None)

    def _put(self, tree, grp):
        for k, v in tree.items():
            if isinstance(v, dict):
                self._put(v, self.createGroup(k, base_grp=grp))
            else:
                self.createDataset(k, v, base_grp=grp)

    def writeToObject(self, obj):
        super().writeToObject(obj)

        def get(g):
            return {k: get(v) if isinstance(v, h5py.Group) else v[()] for k, v in g.items()}
        obj.tree = get(self.root)
        self.populateObject(obj)


LEAF = st.one_of(st.integers(-10 ** 12, 10 ** 12), finite(-1e300, 1e300), st.booleans(), st.text("abc µλ", min_size=1, max_size=6),
                 st.tuples(st.lists(st.integers(1, 4), min_size=1, max_size=3), st.integers(0, 10 ** 6)).map(lambda t: {"shape": list(t[0]), "seed": t[1]}))


def tree_strategy(depth):
    child = LEAF.map(lambda v: {"leaf": v})
    if depth:
        child = st.one_of(child, tree_strategy(depth - 1).map(lambda v: {"node": v}))
    return st.dictionaries(NAMES, child, min_size=1, max_size=4)


def leaf(v):
    if isinstance(v, dict):
        return c21.arr(v["seed"], *v["shape"], special=v["seed"] % 3)
    return np.bool_(v) if isinstance(v, bool) else v


def build(t):
    return {k: build(v["node"]) if "node" in v else leaf(v["leaf"]) for k, v in t.items()}


def same_tree(got, want, where):
    eq(set(got), set(want), f"entries of {where}")
    for k, v in want.items():
        g = got[k]
        if isinstance(v, dict):
            check(isinstance(g, dict), f"{where}/{k} is not a group")
            same_tree(g, v, f"{where}/{k}")
        elif isinstance(v, np.ndarray):
            c21.bits(g, v, f"{where}/{k}")
        elif isinstance(v, str):
            check(not isinstance(g, np.ndarray) and (g.decode() if isinstance(g, bytes) else g) == v, f"{where}/{k}: got {g!r}, expected {v!r}")
        else:
            check(np.ndim(g) == 0 and g == v and type(v)(g) == v, f"{where}/{k}: got {g!r}, expected {v!r}")


def snapshot(f):
    """every dataset (bytes) and attribute (but the date of the last change) of the file"""
    out = {}

    def add(name, o):
        out[name] = ("d", str(o.dtype), o.shape, np.asarray(o[()]).tobytes() if o.dtype.kind != "O" else o[()]) if isinstance(o, h5py.Dataset) else ("g",)
        for k, v in o.attrs.items():
            out[f"{name}@{k}"] = repr(v)
    with h5py.File(f, "r") as h:
        h.visititems(add)
        for k, v in h.attrs.items():
            if k != "LastUpdate":
                out[f"@{k}"] = repr(v)
    return out


def kept(before, after, what):
    for k, v in before.items():
        check(k in after, f"{what}: entry {k} disappeared")
        check(after[k] == v, f"{what}: entry {k} changed from {v!r} to {after[k]!r}")


@CHECK.prop(st.fixed_dictionaries({"tree": tree_strategy(2), "root": c21.ROOTS, "ctor": st.booleans(), "pathlike": st.booleans(), "big": st.sampled_from([0, 0, 0, 1, 3])}), quick=250, thorough=4000, rule="nested tree")
def trees(case, ctx):
    f = ctx.tmp() / "t.h5"
    target = f if case["pathlike"] else str(f)
    b = Box()
    b.tree = build(case["tree"])
    if case["big"]:
        b.tree["many"] = c21.arr(case["big"], 70 * case["big"], 90)
    ctx.nontrivial(any("node" in v for v in case["tree"].values()))
    TreeIO().save(b, target, case["root"])
    got = TreeIO().load(target, case["root"])
    same_tree(got.tree, b.tree, case["root"])
    for k, v in b.tree.items():
        check(hasattr(got, k) == (not isinstance(v, dict)), f"attribute {k} of the populated object")
        if isinstance(v, np.ndarray):
            c21.bits(getattr(got, k), v, f"populated {k}")
    io = TreeIO()
    io.openFile(target, "r", case["root"])
    try:
        eq(set(io.keys()), set(b.tree), "keys of the open root")
        eq(io.root_path, "/" + case["root"].strip("/"), "path of the root")
        for k, v in b.tree.items():
            check(isinstance(io[k], h5py.Group) == isinstance(v, dict), f"kind of {k}")
    finally:
        io.closeFile()
    # nothing besides the tree under the root
    with h5py.File(f, "r") as h:
        n = []
        h[case["root"]].visit(n.append)

    def count(t):
        return sum(1 + (count(v) if isinstance(v, dict) else 0) for v in t.values())
    eq(len(n), count(b.tree), "number of entries in the file")
    # a second save over it is refused, whatever the new tree, and changes nothing
    before = snapshot(f)
    c = Box()
    c.tree = {k: (1.5 if not isinstance(v, dict) else {"new": 2.5}) for k, v in b.tree.items()}
    raises(Exception, lambda: TreeIO().save(c, target, case["root"]), "save over existing entries")
    kept(before, snapshot(f), "refused save")
    raises(FileExistsError, lambda: TreeIO().openFile(target, "w", case["root"]), "open an existing file with mode w")
    eq(snapshot(f), snapshot(f), "file readable")
    kept(before, snapshot(f), "refused opening")


BAD = st.sampled_from(["list", "none", "complex", "dict", "int name", "bytes", "tuple"])


@CHECK.prop(st.fixed_dictionaries({"bad": BAD, "tree": tree_strategy(1), "mode": st.sampled_from(["q", "rw", "", "wb", "R"]), "missing": st.sampled_from(["nope", "a/nope", "alph", "a"])}),
            quick=60, thorough=1000, rule="every case")
def refusals(case, ctx):
    d = ctx.tmp()
    f = d / "t.h5"
    ctx.nontrivial()
    ctx.label(case["bad"])
    b = Box()
    b.tree = {k: v for k, v in build(case["tree"]).items() if k != "a"}
    b.tree["first"] = np.array([1.0, 2.0])
    TreeIO().save(b, f, "obj")
    before = snapshot(f)
    vals = {"list": [1.0, 2.0], "none": None, "complex": 1 + 2j, "bytes": b"x", "tuple": (1.0,), "dict": {1: 2}}
    io = TreeIO()
    io.openFile(f, "r+", "obj")
    try:
        if case["bad"] == "int name":
            raises(TypeError, lambda: io.createDataset(3, 1.0), "non-string dataset name")
        else:
            raises(TypeError, lambda: io.createDataset("fresh", vals[case["bad"]]), f"dataset of type {case['bad']}")
            check("fresh" not in io.root, "refused dataset was created")
        raises(TypeError, lambda: io[0], "non-string key")
        raises(KeyError, lambda: io["no such entry"], "missing key")
    finally:
        io.closeFile()
    kept(before, snapshot(f), "refused dataset")
    raises(ValueError, lambda: TreeIO().openFile(f, case["mode"]), f"mode {case['mode']!r}")
    raises(TypeError, lambda: TreeIO().openFile(12, "r"), "file given as int")
    raises(TypeError, lambda: TreeIO().openFile(f, "r", root=3), "root given as int")
    raises(RuntimeError, lambda: TreeIO().writeToObject(Box()), "read before opening")
    raises(OSError, lambda: TreeIO().load(d / "absent.h5"), "load a missing file")
    check(not (d / "absent.h5").exists(), "loading created a file")
    raises(H5FileModeError, lambda: TreeIO().load(f, case["missing"]), "load a missing root")
    c = Box()
    c.tree = {"good": 1.0, "wrong": vals.get(case["bad"], [1.0])}
    for name in ("t.h5", "other.h5"):
        failing = TreeIO()
        raises(Exception, lambda: failing.save(c, d / name, "broken"), "save of an object with an entry of the wrong type")
        with open(d / name, "rb") as other:  # another process can open the file
            try:
                fcntl.flock(other, fcntl.LOCK_EX | fcntl.LOCK_NB)
            except BlockingIOError:
                check(False, "the file is still open after a failed save")
        c2 = Box()
        c2.tree = {"x": 2.0}
        TreeIO().save(c2, d / name, "after")  # the file was closed
        same_tree(TreeIO().load(d / name, "after").tree, c2.tree, "object saved after a failed save")
    kept(before, snapshot(f), "failed save")
    before = snapshot(f)
    io = TreeIO()
    io.openFile(d / "new.h5", "w")
    raises(RuntimeError, lambda: io.writeToObject(Box()), "read from a file opened for writing")
    io.closeFile()
    (d / "text.h5").write_text("not HDF5")
    raises(OSError, lambda: TreeIO().load(d / "text.h5"), "load a file which is not HDF5")
    raises(OSError, lambda: TreeIO().save(b, d / "text.h5"), "save into a file which is not HDF5")
    eq((d / "text.h5").read_text(), "not HDF5", "content of a foreign file")
    eq(snapshot(f), before, "file after refused operations")
    same_tree(TreeIO().load(f, "obj").tree, b.tree, "tree after refused operations")


@CHECK.prop(st.fixed_dictionaries({"tree": tree_strategy(2), "root": c21.ROOTS, "name": NAMES, "group": st.booleans(), "seed": st.integers(0, 10 ** 6)}),
            quick=250, thorough=4000, rule="an entry of that name exists")
def finding_and_linking(case, ctx):
    f = ctx.tmp() / "t.h5"
    b = Box()
    b.tree = build(case["tree"])
    TreeIO().save(b, f, case["root"])
    paths = []

    def walk(t, pre):
        for k, v in t.items():
            paths.append((pre + k, isinstance(v, dict), v))
            if isinstance(v, dict):
                walk(v, pre + k + "/")
    walk(b.tree, (case["root"].strip("/") + "/").lstrip("/"))
    comp = [p for p, is_group, _ in paths if is_group == case["group"] and p.split("/")[-1] == case["name"]]
    if case["group"]:  # the root's own groups count
        parts = [x for x in case["root"].split("/") if x]
        comp += ["/".join(parts[:i + 1]) for i, x in enumerate(parts) if x == case["name"]]
    ctx.nontrivial(bool(comp))
    before = snapshot(f)
    io = TreeIO()
    io.openFile(f, "r+", "new/place")
    try:
        found = (io.findGroup if case["group"] else io.findDataset)(case["name"])
        if comp:
            check(found is not None and found[0] in comp, f"search of {case['name']!r} found {found!r}, present: {comp}")
            check(isinstance(found[1], h5py.Group) == case["group"], "kind of the entry found")
        else:
            check(found is None, f"search of {case['name']!r} found {found!r}, which is another entry")
        for p, is_group, _ in paths:
            if p.count("/") > 1:  # by the last parts of its path
                tail = p.split("/", 1)[1]
                got = (io.findGroup if is_group else io.findDataset)(tail)
                ok = {q for q, g, _ in paths if g == is_group and (q == tail or q.endswith("/" + tail))}
                check(got is not None and got[0] in ok, f"search of {tail!r} found {got!r}, present: {ok}")
        if not case["group"]:
            data = c21.arr(case["seed"], 3)
            entry = io.createDataset(case["name"], data, try_link_first=True)
            value = entry[()]
            if comp:
                want = {p: v for p, g, v in paths if not g}
                ok = False
                for p in comp:
                    try:
                        same_tree({"x": value}, {"x": want[p]}, "link")
                        ok = True
                    except Violation:
                        pass
                check(ok, "linked dataset differs from the entries of that name")
            else:
                c21.bits(value, data, "new dataset")
        else:
            io.createGroup(case["name"], try_link_first=True)
            grp = io.root[case["name"]]
            check(isinstance(grp, h5py.Group), "linked group")
            if comp:
                keys = {p: set(io._h5file[p].keys()) for p in comp}
                check(set(grp.keys()) in keys.values(), "linked group shows other entries")
    finally:
        io.closeFile()
    kept(before, snapshot(f), "link")


# ---------------------------------------------------------------- histories over real objects
def make(kind, seed):
    s = {"seed": seed, "n": 1 + seed % 3, "nz": 1 + seed % 4, "nk": 2 + seed % 5, "special": 0, "transfer": ["no", "1d"][seed % 2], "code": ["CAMB", "CLASS"][seed % 2],
         "npts": 6, "raw": bool(seed % 2), "probe": PROBES[seed % 4], "counts": False, "start": 0, "perm": list(range(1 + seed % 3)), "model": "piecewise"}
    if kind == "power":
        return c21.make_power(s)
    if kind == "density":
        return c21.make_density(s)
    if kind == "bias":
        return c21.make_bias({**s, "probe": list(PREFIX)[seed % 3]})
    if kind == "delta":
        return c21.make_delta({"n1": 2, "n2": 2, "nl": 1 + seed % 3, "seed": seed, "p": [PROBES[seed % 4]] * 2, "opt": [True, True, True, bool(seed % 2), True]}, f"name {seed % 5}")
    if kind == "weight":
        return c21.make_weight({**s, "density": bool(seed % 2), "bias": bool(seed % 3)}, 0.1 + 0.2 * np.arange(s["nz"]))
    if kind == "kernel":
        k = KernelFunction(PROBES[seed % 4], PROBES[(seed // 4) % 4])
        k.z_grid, k.k_ijz = c21.arr(seed, 3), c21.arr(seed + 1, 2, 2, 3)
        return k
    if kind == "cls":
        return c21.make_collection({**s, "probes": [{"probe": PROBES[seed % 4], "n": 2, "seed": seed, "density": False, "bias": False}], "nl": 2, "kernel": bool(seed % 2),
                                    "weights": True, "widths": True})[0]
    c = Cosmology(params=cosmo_params({"Omm": 0.3, "OmDE": 0.7, "h": 0.6 + (seed % 9) / 50}), flat=True, z_grid=0.1 + np.arange(3 + seed % 3))
    c.growth_factor_z = c21.arr(seed, 3 + seed % 3)
    c.power_spectrum = c21.make_power(s)
    return c


LOAD = {"power": PowerSpectrum.fromHDF5, "density": RedshiftDensity.fromHDF5, "bias": Bias.fromHDF5, "delta": lambda f, root: DeltaCl.fromHDF5(f, "?", root),
        "weight": wfs.WeightFunction.fromHDF5, "kernel": KernelFunction.fromHDF5, "cls": AngularCoefficientsCollector.fromHDF5, "cosmology": Cosmology.fromHDF5}


def same(kind, got, want, what):
    if kind == "power":
        c21.same_power(got, want, what)
    elif kind == "density":
        c21.same_density(got, want, what)
    elif kind == "bias":
        check(got == want and got.probe == want.probe, f"{what}: bias differs")
    elif kind == "delta":
        c21.same_delta(got, want, what)
    elif kind == "weight":
        c21.same_weight(got, want, what)
    elif kind == "kernel":
        eq((got.probe1, got.probe2), (want.probe1, want.probe2), f"{what}: probes")
        c21.bits(got.k_ijz, want.k_ijz, f"{what}: kernel")
    elif kind == "cls":
        eq(set(got.cl_dict), set(want.cl_dict), f"{what}: spectra")
        for k in want.cl_dict:
            c21.same_cl(got.cl_dict[k], want.cl_dict[k], f"{what}: {k}")
    else:
        check(got.params == want.params, f"{what}: parameters")
        c21.bits(got.growth_factor_z, want.growth_factor_z, f"{what}: growth")
        c21.same_power(got.power_spectrum, want.power_spectrum, what)


KINDS = ["power", "density", "bias", "delta", "weight", "kernel", "cls", "cosmology"]
OP = st.tuples(st.sampled_from(["save"] * 5 + ["load", "bad load", "open w", "broken", "missing file"]), st.integers(0, 1), st.sampled_from(["/", "p", "p/q", "r", "r/s/t"]),
               st.sampled_from(KINDS), st.integers(0, 10 ** 5))


@CHECK.prop(ops_list(OP, 2, 9), quick=160, thorough=2500, rule="a refused save or several objects in one file")
def histories(ops, ctx):
    d = ctx.tmp()
    files = [d / "one.h5", d / "two.h5"]
    model = [{}, {}]
    refused = False
    for op, which, root, kind, seed in ops:
        f, held = files[which], model[which]
        what = f"{op} {kind} at {root}"
        before = snapshot(f) if f.exists() else None
        ctx.label(op)
        if op == "save":
            if root in held:
                kind = held[root][0]  # same kind over an occupied root
                raises(Exception, lambda: make(kind, seed).saveToHDF5(f, root), f"save of a second {kind} at {root}")
                refused = True
            else:
                make(kind, seed).saveToHDF5(f, root)
                held[root] = (kind, seed)
        elif op == "broken":
            # an object which cannot be written completely
            o = make("power", seed)
            o.nonlin_p_mm_z_k = [1.0, 2.0]
            free = f"broken{len(snapshot(f)) if f.exists() else 0}"
            existed = f.exists()
            raises(Exception, lambda: o.saveToHDF5(f, free), "save of an object with a list instead of an array")
            if not existed:
                check(f.exists(), "file")
            raises(Exception, lambda: PowerSpectrum.fromHDF5(f, free + "x"), "load of a root never written")
        elif op == "load" and held:
            root = sorted(held)[seed % len(held)]
            k, s = held[root]
            same(k, LOAD[k](f, root), make(k, s), what)
        elif op == "bad load" and f.exists():
            raises(Exception, lambda: LOAD[kind](f, f"{root.strip('/')}/nothing here"), f"load of a {kind} from a missing root")
        elif op == "open w" and f.exists():
            raises(FileExistsError, lambda: TreeIO().openFile(f, "w", root), "opening an existing file for writing")
        elif op == "missing file":
            raises(Exception, lambda: LOAD[kind](d / "none.h5", root), f"load of a {kind} from a missing file")
            check(not (d / "none.h5").exists(), "loading a missing file created it")
        if before is not None:
            kept(before, snapshot(f), what)
    ctx.nontrivial(refused or any(len(m) > 1 for m in model))
    for f, held in zip(files, model):
        for root, (k, s) in held.items():
            same(k, LOAD[k](f, root), make(k, s), f"{k} at {root} after the history")


# ---------------------------------------------------------------- JSON
JVAL = st.recursive(st.one_of(st.none(), st.booleans(), st.integers(-10 ** 15, 10 ** 15), finite(-1e300, 1e300), st.text(max_size=6)),
                    lambda c: st.one_of(st.lists(c, max_size=3), st.dictionaries(st.text("abcXYZ_", min_size=1, max_size=5), c, max_size=3)), max_leaves=8)


@CHECK.prop(st.fixed_dictionaries({"values": st.dictionaries(st.text("abcdef_", min_size=1, max_size=6), JVAL, max_size=4), "task": st.sampled_from(["PowerSpectrum", "Angular", "Derivative", "Fisher"]),
                                   "seed": st.integers(0, 10 ** 6), "fail": st.sampled_from(["array", "set", "object"]), "n": st.integers(1, 4), "flat": st.booleans()}), quick=100, thorough=2500, rule="nested values")
def json_files(case, ctx):
    d = ctx.tmp()
    bad = {"array": np.arange(3.0), "set": {1, 2}, "object": object()}[case["fail"]]
    ctx.nontrivial(any(isinstance(v, (list, dict)) for v in case["values"].values()))
    # configuration of a task
    f = d / "main.json"
    f.write_text(json.dumps(case["values"]))
    cfg = config_for_task(case["task"], f)
    g = d / "copy.json"
    cfg.writeToJSON(g)
    want = {**{"config_type": f"{case['task']}Config"}, **case["values"]}
    eq(json.loads(g.read_text()), want, "written task configuration")
    again = config_for_task(case["task"], g)
    eq(dict(again.items()), dict(cfg.items()), "reloaded task configuration")
    cfg["broken"] = bad
    raises(TypeError, lambda: cfg.writeToJSON(g), "configuration which is not JSON")
    eq(json.loads(g.read_text()), want, "file after a failed save")
    eq(json.loads(f.read_text()), case["values"], "source file")
    raises(FileNotFoundError, lambda: config_for_task(case["task"], d / "none.json"), "missing configuration")
    raises(ValueError, lambda: config_for_task("Unknown", f), "unknown task")
    # forecast configuration
    data = forecast_json({"Lensing": {}})
    data["extra"] = case["values"]
    f = d / "forecast.json"
    f.write_text(json.dumps(data))
    jc = JSONForecastConfig(file=f)
    eq(jc.data, data, "loaded forecast configuration")
    g = d / "forecast2.json"
    jc.toJSON(g)
    got = json.loads(g.read_text())
    eq({k: v for k, v in got.items() if k != "metadata"}, {k: v for k, v in data.items() if k != "metadata"}, "written forecast configuration")
    eq(JSONForecastConfig(file=g).data, got, "reloaded forecast configuration")
    jc.data["extra2"] = bad
    raises(TypeError, lambda: jc.toJSON(g), "forecast configuration which is not JSON")
    eq(json.loads(g.read_text()), got, "file after a failed save")
    del jc.data["extra2"]
    meta = jc.data.pop("metadata")
    raises(Exception, lambda: jc.toJSON(g), "forecast configuration without metadata")
    eq(json.loads(g.read_text()), got, "file after a failed save")
    jc.data["metadata"] = meta
    # physical parameters
    f = d / "pars.json"
    pars = PhysicalParametersCollection()
    pars.loadStemDisplacements(list(0.001 * (1 + np.arange(case["n"]))))
    pars.is_universe_flat = case["flat"]
    for n, p in cosmo_params({"Omm": 0.3, "h": 0.5 + case["seed"] / 10 ** 7}).items():
        pars[n] = p
    pars.writeJSON(f)
    text = f.read_text()
    got = PhysicalParametersCollection.fromJSON(f)
    eq(dict(got.items()), dict(pars.items()), "reloaded parameters")
    eq(got.is_universe_flat, case["flat"], "flatness")
    same_bits(got.stem_disps, pars.stem_disps, "displacements")
    pars["Omm"].current_value = bad
    raises(TypeError, lambda: pars.writeJSON(f), "parameters which are not JSON")
    eq(f.read_text(), text, "file after a failed save")

"""C20: names of probes, spectra and data vectors."""
from covlib import *
from seyfert.base_structs.cl_dict import ClDict, ClSmartDict, FlexDict, TupleSmartDict
from seyfert.base_structs.generic_dict import DictLike, GenericDictInterface
from seyfert.fisher import fisher_utils as fu
from seyfert.fisher.datavector import ClDataVector
from seyfert.utils import general_utils as gu
from seyfert.utils.shortcuts import ClKey, ClSmartKeyDict, ProbeName, SmartKeyDict

CHECK = Check("C20", ["Malformed names are names of the wrong alphabet, truncated, extended or glued names and tuples of the wrong length."])
KINDS = ["long", "short", "alias"]
TABLE = {"long": dict(zip(PROBES, PROBES)), "short": SHORT, "alias": ALIAS}
PAIR = st.tuples(st.sampled_from(PROBES), st.sampled_from(PROBES))
SPELLED = st.tuples(st.sampled_from(PROBES), st.sampled_from(PROBES), st.sampled_from(KINDS)).map(list)


def raw(x):
    return tuple(x) if isinstance(x, list) else x


def junk_of(x):
    """spellings close to valid ones"""
    a, b, kind, how = x
    k = spell(a, b, kind)
    if isinstance(k, tuple):
        return {"suffix": [k[0], k[1] + "x"], "prefix": ["x" + k[0], k[1]], "more": list(k) + [k[0]], "less": [k[0]], "case": [k[0].swapcase(), k[1]],
                "mixed": [k[0], b], "twice": [k[0] + k[0], k[1]], "empty": ["", k[1]]}[how]
    return {"suffix": k + "x", "prefix": "x" + k, "more": k + k, "less": k[:-1], "case": k.swapcase(), "mixed": f"{SHORT[a]}_{b}", "twice": k + "_" + k, "empty": ""}[how]


@CHECK.prop(st.fixed_dictionaries({"k": SPELLED, "o": SPELLED, "path": st.lists(st.sampled_from(KINDS), max_size=6)}), quick=400, thorough=3000,
            rule="a chain of conversions of a cross-spectrum")
def cl_keys(case, ctx):
    a, b, kind = case["k"]
    key = ClKey(spell(a, b, kind))
    eq(key.kind, kind, "notation")
    eq(tuple(key.toParts()), (TABLE[kind][a], TABLE[kind][b]), "parts")
    eq(key.is_auto_correlation, a == b, "auto-correlation")
    eq([key.is_long, key.is_short, key.is_tuple], [kind == k for k in KINDS], "notation")
    cur = key
    for k in case["path"]:
        cur = cur.transformTo(k)
        eq((cur.key, cur.kind), (spell(a, b, k), k), "converted key")
        check(cur == key and key == cur and hash(cur) == hash(key) and cur.equivalentTo(key), "every notation denotes the same spectrum")
    ctx.nontrivial(len(case["path"]) > 1 and a != b)
    eq(key.toLongRawKey(), f"{a}_{b}", "long")
    eq(key.toShortRawKey(), SHORT[a] + SHORT[b], "short")
    eq(key.toTupleRawKey(), (ALIAS[a], ALIAS[b]), "alias")
    eq(key.key, spell(a, b, kind), "the key itself is not modified")
    r = key.getReverseKey()
    eq(r.key, spell(b, a, kind), "reverse")
    eq(r.getReverseKey() == key, True, "reverse of the reverse")
    eq(ClKey.fromParts(*key.toParts(), kind=kind) == key, True, "from the parts")
    eq(ClKey(key) == key and key.copy() == key and ClKey(key) is not key, True, "copy")
    c, d, k2 = case["o"]
    o = ClKey(spell(c, d, k2))
    eq((o == key, o != key, len({o, key})), ((a, b) == (c, d), (a, b) != (c, d), 1 + ((a, b) != (c, d))), "equality of two keys")
    s = key.toFisherStringRepr()
    eq(s, ALIAS[a] if a == b else f"XC({ALIAS[a]},{ALIAS[b]})", "name in data vectors")
    check(ClKey.fromFisherStringRepr(s) == key, "name read back")
    eq(key.toFisherStringRepr("short"), SHORT[a] if a == b else f"XC({SHORT[a]},{SHORT[b]})", "short name")


@CHECK.prop(st.tuples(st.sampled_from(PROBES), st.sampled_from(PROBES), st.sampled_from(KINDS),
                      st.sampled_from(["suffix", "prefix", "more", "less", "case", "mixed", "twice", "empty"])).map(list), quick=150, thorough=1000,
            rule="always")
def malformed_keys(case, ctx):
    ctx.nontrivial()
    ctx.label(case[2] + " " + case[3])
    bad = raw(junk_of(case))
    raises((KeyError, ValueError, TypeError), lambda: ClKey(bad), f"malformed key {bad!r}")
    for b in (5, None, ["WL", "WL"], 2.5):
        raises((KeyError, ValueError, TypeError), lambda: ClKey(b), f"malformed key {b!r}")
    raises(Exception, lambda: ClKey.fromParts("WL", "WL", kind="other"), "unknown notation")
    raises(Exception, lambda: ClKey("phph").transformTo("other"), "unknown notation")
    a, b = case[0], case[1]
    rep = f"XC({ALIAS[a]},{ALIAS[b]})"
    for k in KINDS:
        for other in KINDS:
            if k != other:
                raises(Exception, lambda: ClKey.fromParts(TABLE[other][a], TABLE[other][b], kind=k), f"{other} names as {k} key")
    raises(Exception, lambda: ClKey(bad, infer_kind=False).toParts(), f"parts of the malformed key {bad!r}")
    eq(tuple(ClKey(spell(a, b, case[2]), infer_kind=False).toParts()), (TABLE[case[2]][a], TABLE[case[2]][b]), "parts of a key whose notation is inferred late")
    for s in (ALIAS[a] + "x", rep + "x", rep[:-1], f"XC({ALIAS[a]})", f"XC({a},{b})", SHORT[a], "", f"{ALIAS[a]}_{ALIAS[b]}"):
        if s in ALIAS.values() or s == rep:
            continue
        raises(Exception, lambda: ClKey.fromFisherStringRepr(s), f"malformed name {s!r}")
    raises(Exception, lambda: ClDataVector.fromName(f"[{ALIAS[a]}+{ALIAS[b]}x]"), "malformed data vector name")


@CHECK.prop(st.fixed_dictionaries({"p": st.sampled_from(PROBES), "q": st.sampled_from(PROBES), "path": st.lists(st.sampled_from(KINDS), max_size=6),
                                   "start": st.sampled_from(KINDS), "junk": st.sampled_from(["x", "", "lensing", "GC", "GCphx", "void", "Lensing ", "WLWL"])}),
            quick=200, thorough=1000, rule="a chain of conversions")
def probe_names(case, ctx):
    p, q = case["p"], case["q"]
    ctx.nontrivial(len(case["path"]) > 1)
    x = ProbeName(TABLE[case["start"]][p])
    eq(x.kind, case["start"], "notation")
    cur = x
    for k in case["path"]:
        cur = cur.transformTo(k)
        eq((cur.name, cur.kind), (TABLE[k][p], k), "converted name")
    eq((x.toLong().name, x.toShort().name, x.toAlias().name), (p, SHORT[p], ALIAS[p]), "names")
    for k in KINDS:
        eq(x == ProbeName(TABLE[k][q]), p == q, "equality")
    raises((ValueError, KeyError), lambda: ProbeName(case["junk"]), "malformed probe name")
    eq(gu.probe_fullname_to_alias(p), ALIAS[p], "alias")
    eq(gu.probe_alias_to_fullname(ALIAS[p]), p, "full name")
    eq(list(gu.get_probes_from_comb_key(gu.get_probes_combination_key(p, q))), [p, q], "combination key")
    eq(gu.reverse_probes_comb_key(f"{p}_{q}"), f"{q}_{p}", "reversed combination")
    sh = {PROBES[0]: "gcph", PROBES[1]: "gcsp", PROBES[2]: "wl", PROBES[3]: "v"}
    eq(gu.get_probe_comb_from_shortcut(sh[p], sh[q]), f"{p}_{q}", "combination from shortcuts")
    raises(KeyError, lambda: gu.get_probe_comb_from_shortcut(sh[p], "xx"), "invalid shortcut")
    eq(gu.replace_fullnames_with_aliases(f"fisher_{p}_{q}.hdf5"), f"fisher_{ALIAS[p]}_{ALIAS[q]}.hdf5", "aliases in a file name")


@CHECK.prop(st.fixed_dictionaries({"a": st.lists(SPELLED, min_size=1, max_size=7), "b": st.lists(SPELLED, min_size=1, max_size=7),
                                   "how": st.sampled_from(["same", "prefix", "respelled", "permuted", "other"])}), quick=400, thorough=4000,
            rule="several entries")
def data_vectors(case, ctx):
    a = case["a"]
    v = ClDataVector([spell(*e) for e in a])
    ctx.nontrivial(len(a) > 1)
    eq([e.key for e in v], [spell(*e) for e in a], "entries")
    eq((len(v), v[0].key, v.getRawEntries()), (len(a), spell(*a[0]), [spell(*e) for e in a]), "entries")
    rep = [ALIAS[p] if p == q else f"XC({ALIAS[p]},{ALIAS[q]})" for p, q, _ in a]
    eq(v.name, "[" + "+".join(rep) + "]", "name")
    eq(v.involved_probes, {ALIAS[p] for p, q, _ in a if p == q}, "probes whose auto-spectrum is in the data vector")
    eq(v.getInvolvedAutoCorrelationProbes(), {ALIAS[p] for p, q, _ in a if p == q}, "probes whose auto-spectrum is in the data vector")
    eq(v.is_single_autocorrelation, len(a) == 1 and a[0][0] == a[0][1], "single auto-correlation")
    pairs = [(p, q) for p, q, _ in a]

    def same(w, what):
        eq([tuple(ProbeName(x).toLong().name for x in e.toParts()) for e in w], pairs, what)
        eq(w.name, v.name, what)
        check(w == v and v == w, f"{what}: equal")
    same(ClDataVector.fromName(v.name), "from the name")
    same(ClDataVector.fromString(v.toString()), "from the string")
    same(ClDataVector.fromBriefString(v.toBriefString()), "from the brief string")
    eq(v.toBriefString(), "_".join(SHORT[p] + SHORT[q] for p, q, _ in a), "brief string")
    same(v.toShortKeysVector(), "short keys")
    same(v.toTupleKeysVector(), "alias keys")
    same(ClDataVector(v), "copy")
    eq(v.toRawTuples(), [(ALIAS[p], ALIAS[q]) for p, q in pairs], "raw tuples")
    w = ClDataVector(v)
    for k in KINDS:
        w.transformEntriesTo(k)
        same(w, f"transformed to {k}")
        eq(w.getRawEntries(), [spell(p, q, k) for p, q in pairs], "transformed entries")
    eq(v.getRawEntries(), [spell(*e) for e in a], "the copied vector is not modified")
    b = {"same": a, "prefix": a[:-1] or a + a, "respelled": [[p, q, "long"] for p, q, _ in a], "permuted": a[1:] + a[:1], "other": case["b"]}[case["how"]]
    x = ClDataVector([spell(*e) for e in b])
    equal = [(p, q) for p, q, _ in b] == pairs
    ctx.label(case["how"], "equal" if equal else "different")
    eq((x == v, v == x), (equal, equal), f"equality of {v.name} and {x.name}")


@CHECK.prop(st.fixed_dictionaries({"init": st.lists(SPELLED, max_size=5), "ops": ops_list(st.tuples(
    st.sampled_from(["set", "set", "get", "get", "in", "del", "update"]), SPELLED, st.integers(0, 99)), 1, 14), "transpose": st.booleans()}),
    quick=600, thorough=6000, rule="a spectrum is looked up in another spelling than the one it was stored with")
def spelling_independent_containers(case, ctx):
    """one entry per spectrum, found under every spelling, transposed when the probes are swapped"""
    T = case["transpose"]
    model = {}

    def val(n, a, b):
        return lcg(n * 16 + PROBES.index(a) * 4 + PROBES.index(b), 12).reshape((1, 3, 4) if n % 3 else (3, 2, 2))
    init = {}
    for n, (a, b, k) in enumerate(case["init"]):
        if (a, b) not in model:
            model[a, b] = val(n, a, b)
            init[spell(a, b, k)] = model[a, b]
    d = (ClSmartKeyDict if T else SmartKeyDict)(init)
    nt = False
    for op, (a, b, k), n in case["ops"]:
        key = spell(a, b, k)
        key = ClKey(key) if n % 2 else key
        if op in ("set", "update"):
            model[a, b] = val(n, a, b)
            if op == "set":
                d[key] = model[a, b]
            else:
                d.update({key: model[a, b]})
        elif op == "del":
            if (a, b) in model:
                del model[a, b]
                del d[key]
        elif op == "in":
            eq(key in d, (a, b) in model or (b, a) in model, f"{key} is present")
        elif (a, b) in model:
            same_bits(d[key], model[a, b], f"value of {key}")
            nt = True
        elif (b, a) in model:
            w = model[b, a]
            same_bits(d[key], w.transpose(0, 2, 1) if T else w, f"value of {key} (stored with swapped probes)")
            nt = True
        else:
            raises(KeyError, lambda: d[key], f"absent {key}")
        eq(len(d), len(model), "number of entries")
        eq({ClKey(x).toLongRawKey() for x in d}, {f"{p}_{q}" for p, q in model}, "entries")
    ctx.nontrivial(nt)


@CHECK.prop(st.fixed_dictionaries({"init": st.lists(PAIR.map(list), min_size=1, max_size=5, unique_by=tuple), "ask": SPELLED, "cl": st.booleans()}), quick=500,
            thorough=2000, rule="a spectrum stored with swapped probes is looked up")
def flexible_dictionaries(case, ctx):
    data, model = {}, {}
    for n, (a, b) in enumerate(case["init"]):
        if (b, a) in model:
            continue
        model[a, b] = lcg(n, 12).reshape(1, 3, 4)
        data[f"{a}_{b}"] = model[a, b]
    tup = {(ALIAS[a], ALIAS[b]): v for (a, b), v in model.items()}
    d = (ClDict if case["cl"] else FlexDict)(dict(data))
    t = (ClSmartDict if case["cl"] else TupleSmartDict)(dict(tup))
    a, b, kind = case["ask"]
    ctx.nontrivial((b, a) in model and a != b)
    rev = (a, b) not in model
    want = model.get((a, b), model.get((b, a)))
    eq(sorted(d.keys()), sorted(data), "keys")
    eq(d.tuple_keys, list(tup), "alias keys")
    if want is None:
        raises(KeyError, lambda: d[f"{a}_{b}"], "absent spectrum")
        raises(KeyError, lambda: d[ALIAS[a], ALIAS[b]], "absent spectrum")
        raises(KeyError, lambda: t[ALIAS[a], ALIAS[b]], "absent spectrum")
    else:
        w = want.transpose(0, 2, 1) if rev and case["cl"] else want
        same_bits(d[f"{a}_{b}"], w, "long name")
        same_bits(d[ALIAS[a], ALIAS[b]], w, "aliases")
        same_bits(t[ALIAS[a], ALIAS[b]], w, "tuple")
        eq(d.tuple_key_to_str_key((ALIAS[a], ALIAS[b])) in (f"{a}_{b}", f"{b}_{a}"), True, "string key")
        same_bits(d[d.tuple_key_to_str_key((ALIAS[a], ALIAS[b]))], w, "value under the string key")
    raises((KeyError, TypeError), lambda: d[5], "not a key")
    eq((d.alias_to_fullname(ALIAS[a]), d.fullname_to_alias(a)), (a, ALIAS[a]), "aliases")
    eq(d.str_key_to_tuple_key(f"{a}_{b}"), (ALIAS[a], ALIAS[b]), "tuple key")


@CHECK.prop(st.fixed_dictionaries({"ops": ops_list(st.tuples(st.sampled_from(["set", "get", "del", "in", "update", "attr", "delattr"]), st.sampled_from("abcd"),
                                                             st.integers(0, 9)), 1, 15)}), quick=200, thorough=1500, rule="three or more operations")
def plain_containers(case, ctx):
    """the base dictionaries behave as ordered mappings"""
    ctx.nontrivial(len(case["ops"]) > 2)

    class G(GenericDictInterface):
        pass
    g, dl, m, ml = G(), DictLike(), {}, {}
    for op, k, v in case["ops"]:
        if op == "set":
            g[k] = v
            m[k] = v
        elif op == "update":
            g.update({k: v, "z": v})
            m.update({k: v, "z": v})
        elif op == "attr":
            setattr(dl, k, v)
            ml[k] = v
        elif op == "delattr":
            if k in ml:
                delattr(dl, k)
                del ml[k]
            else:
                raises(AttributeError, lambda: delattr(dl, k), "absent attribute")
        elif op == "del":
            if k in m:
                del g[k]
                del m[k]
            else:
                raises(KeyError, lambda: g.__delitem__(k), "absent key")
        elif op == "in":
            eq(k in g, k in m, "membership")
        elif k in m:
            eq(g[k], m[k], "value")
        else:
            raises(KeyError, lambda: g[k], "absent key")
        if k in ml:
            eq((getattr(dl, k), dl[k]), (ml[k], ml[k]), "attribute")
        else:
            raises(AttributeError, lambda: getattr(dl, k), "absent attribute")
        eq((list(g), list(g.keys()), list(g.values()), dict(g.items()), len(g), g.base_dict), (list(m), list(m), list(m.values()), m, len(m), m), "contents")
        eq(dict(dl), ml, "contents")
        h = G(dict(m))
        eq(h == g, True, "equality")
        h["q"] = 1
        eq(h == g, False, "equality")


@CHECK.prop(st.permutations(PROBES).map(list).flatmap(lambda p: st.integers(1, 4).map(lambda n: p[:n])), quick=40, thorough=200, rule="always")
def joint_names(case, ctx):
    ctx.nontrivial()
    name = fu.get_probes_xc_fisher_name(probes=list(case))
    eq(fu.get_probes_from_fisher_name(name), case, "probes of a joint name")
    eq(name.endswith("+XC"), len(case) > 1, "joint name")

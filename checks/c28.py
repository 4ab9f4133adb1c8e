"""C28: textual helpers, tables and scheduler reports are decoded correctly."""
import datetime
import io
import re
import types
import warnings
from parlib import *
import pandas as pd
from pathlib import Path
from seyfert.main import bsub_utils, report_maker
from seyfert.notebook_helpers import table_helpers as th
from seyfert.utils import formatters as fm
from seyfert.utils import general_utils as gu
from seyfert.utils import table_utils, tex_utils

CHECK = Check("C28", ["Scheduler output has the format of LSF (bjobs, bsub and job summaries) with the hosts of the farm the code is written for.", "Tables have one row per Fisher matrix and number of bins.", "Durations are not negative."])
TEX = tex_utils.TeXTranslator()
LONG_PROBES = ["PhotometricGalaxy", "SpectroscopicGalaxy", "Lensing", "Void"]
FISHERS = ["[WL]", "[GCph]", "[GCsp(Pk)]", "[GCsp(Cl)]", "[WL+GCph]", "[WL+GCph+XC(WL,GCph)]", "[WL] + [GCph]", "[GCph] + [GCsp(Pk)]", "[WL+GCph+XC(WL,GCph)] + [GCsp(Pk)]", "[WL+GCph+GCsp+XC(WL,GCph)+XC(WL,GCsp)+XC(GCph,GCsp)]", "[GCsp+XC(GCph,GCsp)]", "[GCsp(Pk)] + [WL]"]
PARS = ["Omm", "Omb", "h", "ns", "sigma8", "w0", "wa"]
DUR = st.one_of(st.integers(0, 10 ** 6).map(float), st.integers(0, 3600000).map(lambda x: x / 1000), st.builds(lambda a, b: a + b, st.integers(0, 200000), st.floats(0, 1, allow_subnormal=False)), st.sampled_from([0.9999996, 59.9999999, 3599.9999999, 0.99949, 86399.9999999]))


def decode_duration(s):
    m = re.fullmatch(r"(\d+)h (\d+)m (\d+)s (\d+(?:\.\d*)?)ms", s)
    check(m, f"{s!r} is not a duration")
    h, mi, sec, ms = m.groups()
    check(int(mi) < 60 and int(sec) < 60 and float(ms) < 1000, f"{s!r} is a duration in canonical form")
    return int(h) * 3600 + int(mi) * 60 + int(sec) + float(ms) / 1000


@CHECK.prop(st.fixed_dictionaries({"dt": DUR, "int": st.booleans(), "t": st.datetimes(datetime.datetime(1000, 1, 1), datetime.datetime(9999, 12, 31)).map(lambda t: t.isoformat()), "u": st.datetimes(datetime.datetime(1900, 1, 1), datetime.datetime(2100, 1, 1)).map(lambda t: t.isoformat()), "sep": st.sampled_from(["-", ":", ""]),
                                   "bad": st.sampled_from(["cut", "space", "month", "extra", "empty"]), "wait": st.one_of(st.integers(0, 40).map(float), st.integers(0, 400).map(lambda x: x / 8), st.integers(0, 9).map(lambda x: x / 10))}), quick=400, thorough=10000, rule="a duration with fractional seconds")
def durations(case, ctx):
    dt = case["dt"]
    ctx.nontrivial(dt != int(dt))
    close(decode_duration(fm.string_time_format(int(dt) if case["int"] else dt)), int(dt) if case["int"] else dt, "duration", atol=1e-6)
    t, u = (datetime.datetime.fromisoformat(case[k]).replace(microsecond=0) for k in "tu")
    s, r = fm.datetime_str_format(t, hour_sep=case["sep"]), fm.datetime_str_format(u, hour_sep=case["sep"])
    eq(fm.date_from_str(s, hour_sep=case["sep"]), t, "date")
    eq((s < r, s == r), (t < u, t == u), "order of the dates")
    check(not re.search(r"[\s/]", s), "a date can be part of a file name")
    wrong = {"cut": s[:10], "space": s.replace("T", " "), "month": s[:5] + "13" + s[7:], "extra": s + "x", "empty": ""}[case["bad"]]
    raises(ValueError, lambda: fm.date_from_str(wrong, hour_sep=case["sep"]), f"date {wrong!r}")
    slept = []

    def sleep(x):
        slept.append(x)
        check(len(slept) < 1000, f"waiting for {case['wait']} s does not come to an end")
    real = bsub_utils.time
    bsub_utils.time = types.SimpleNamespace(sleep=sleep, time=real.time)
    try:
        bsub_utils.count_down(case["wait"])
    finally:
        bsub_utils.time = real
    check(case["wait"] - 1e-9 <= sum(slept) < case["wait"] + 1, f"waited for {sum(slept)} s instead of {case['wait']} s")


# ---------------------------------------------------------------- TeX
def all_parameters():
    return list(TEX.phys_par_name_to_tex) + [f"bg{x}{i}" for x in ("ph", "sp") for i in range(31)]


PAR = st.one_of(st.sampled_from(["w0", "wa", "mnu", "Omm", "OmDE", "Omb", "sigma8", "ns", "h", "gamma", "aIA", "etaIA", "betaIA", "FoM"]), st.builds(lambda p, i: f"bg{p}{i}", st.sampled_from(["ph", "sp"]), st.integers(0, 30)))
SAME = [{"Lensing", "WL"}, {"Void", "V"}, {"PhotometricGalaxy", "GCph"}, {"SpectroscopicGalaxy", "GCsp", "IST_GCsp"}, {"GCsp(Pk)"}, {"XC"}]
PROBE = st.sampled_from(sorted(set().union(*SAME)))
PRODUCT = st.builds(lambda a, b: f"{a}_{b}", PAR.filter(lambda x: "bg" in x), st.sampled_from(["sigma8", "h"]))


@CHECK.prop(st.fixed_dictionaries({"pars": st.lists(st.one_of(PAR, PAR, PRODUCT), unique=True, min_size=1, max_size=6), "probes": st.lists(PROBE, min_size=1, max_size=4), "dollar": st.booleans(), "unknown": st.text("abghpsw0123OmDE", min_size=1, max_size=6), "as": st.sampled_from(["list", "set"]), "spaces": st.sampled_from(["+", " + ", "+ "])}),
            quick=300, thorough=5000, rule="several parameters")
def names(case, ctx):
    ctx.nontrivial(len(case["pars"]) > 1)
    if not hasattr(names, "table"):
        names.table = {}
        for p in all_parameters():
            t = TEX.PhysParNameToTeX(p)
            check(t and t not in names.table, f"{p} and {names.table.get(t)} have the same TeX name {t!r}")
            names.table[t] = p

    def decode(t):
        return names.table[t] if t in names.table else "_".join(names.table[x] for x in t.split(" "))
    texs = [TEX.PhysParNameToTeX(p, include_dollar=case["dollar"]) for p in case["pars"]]
    for p, t in zip(case["pars"], texs):
        if case["dollar"]:
            check(t.startswith("$") and t.endswith("$"), "dollars")
            t = t[1:-1]
        check(t.count("{") == t.count("}"), f"braces of {t}")
        try:
            got = decode(t)
        except KeyError:
            got = None
        eq(got, p, f"parameter of {t!r}")
        if p in TEX.phys_par_name_to_tex:
            eq((TEX.CosmoParTeXToName(t), TEX.CosmoParNameToTeX(p)), (p, t), "cosmological parameter")
    kind = {"list": list, "set": set}[case["as"]]
    eq(TEX.PhysParsNamesToTeX(kind(case["pars"]), include_dollar=case["dollar"]), kind(texs), "several parameters")
    u = case["unknown"]
    if u not in names.table.values():
        try:
            t = TEX.PhysParNameToTeX(u)
        except KeyError:
            t = ""
        check(t not in names.table, f"unknown parameter {u} is shown as {names.table.get(t)}")
        raises(KeyError, lambda: TEX.CosmoParNameToTeX(u), "unknown cosmological parameter")
    # probes
    t = TEX.ProbeNameToTeX(case["spaces"].join(case["probes"]))
    back = TEX.ProbeTeXToName(t)
    eq(TEX.ProbeNameToTeX(back), t, "TeX name of the probes translated back")
    eq([next(i for i, g in enumerate(SAME) if p in g) for p in back.split("+")], [next(i for i, g in enumerate(SAME) if p in g) for p in case["probes"]], "probes translated back")
    raises(KeyError, lambda: TEX.ProbeNameToTeX("Radio"), "unknown probe")
    for n, t in TEX.cosmology_name_to_tex.items():
        eq(TEX.CosmologyNameToTeX(n), t, "cosmology")
        eq(TEX.cosmology_name_to_tex[TEX.CosmologyTeXToName(t)], t, "cosmology translated back")
        eq(TEX.CosmologyTeXToName(t).replace("_", ""), n.replace("_", ""), "cosmology translated back")


def untex(s, aliases):
    if aliases:
        s = re.sub(r"\\xc\{(.*?)\}\{(.*?)\}", r"XC(\1,\2)", s)
        s = re.sub(r"\\(WL|GCph|GCsp)(?![a-zA-Z])", r"\1", s)
    else:
        for t, n in ((r"\mathrm{GC_{ph}}", "GCph"), (r"\mathrm{GC_{sp}}", "GCsp"), (r"\mathrm{WL}", "WL"), (r"\mathrm{XC}", "XC")):
            s = s.replace(t, n)
    return s.replace(r"C_{\ell}", "Cl").replace("P_k", "Pk")


ALIAS_PAR = {"w0": r"\wz", "wa": r"\wa", "Omm": r"\Omm", "Omb": r"\Omb", "h": r"\h", "ns": r"\ns", "sigma8": r"\sige", "FoM": r"\FoM"}


@st.composite
def fisher_name(draw):
    part = lambda: "[" + "+".join(draw(st.lists(st.sampled_from(["WL", "GCph", "GCsp", "GCsp(Pk)", "GCsp(Cl)", "XC(WL,GCph)", "XC(WL,GCsp)", "XC(GCph,GCsp)"]), unique=True, min_size=1, max_size=6))) + "]"  # noqa: E731
    return " + ".join(part() for _ in range(draw(st.integers(1, 3))))


@CHECK.prop(st.fixed_dictionaries({"name": fisher_name(), "aliases": st.booleans(), "row": st.lists(st.sampled_from(PARS + ["FoM", "other", "homm", "w0wa"]), max_size=6)}), quick=200, thorough=5000, rule="spectra of several probes")
def fisher_names(case, ctx):
    ctx.nontrivial("XC" in case["name"])
    for f in (TEX.translateToTeX, TEX.toTeX):
        t = f(case["name"], use_aliases=case["aliases"])
        eq(untex(t, case["aliases"]), case["name"], f"name of the Fisher matrix from {t!r}")
        check(t.count("{") == t.count("}"), "braces")
    line = " & " + " & ".join(case["row"]) + " & end"
    table = ALIAS_PAR if case["aliases"] else TEX.phys_par_name_to_tex
    eq(TEX.translateToTeX(line, use_aliases=case["aliases"]), " & " + " & ".join(table.get(x, x) if x not in ("other", "homm", "w0wa") else x for x in case["row"]) + " & end", "columns")


# ---------------------------------------------------------------- other text helpers
@CHECK.prop(st.fixed_dictionaries({"text": st.text("ab[]() ,\\x.*+", max_size=30), "sub": st.dictionaries(st.text("ab[]() ,\\.*+", min_size=1, max_size=2), st.text("ab_\\1-", max_size=3), min_size=1, max_size=5), "word": st.text("TtrueFfals01 -.", max_size=6), "x": st.floats(allow_nan=False), "ab": st.tuples(st.integers(-99, 99), st.integers(1, 99)),
                                   "ini": st.dictionaries(st.text("abc_XY", min_size=1, max_size=5), st.one_of(st.booleans(), st.integers(0, 10 ** 9), st.sampled_from(["text", "1.5", "-3", "truely", "a b", "10x"])), max_size=5), "probes": st.tuples(st.sampled_from(LONG_PROBES), st.sampled_from(LONG_PROBES))}),
            quick=300, thorough=8000, rule="several replacements")
def texts(case, ctx):
    ctx.nontrivial(len(case["sub"]) > 1)
    s, i, out = case["text"], 0, ""
    while i < len(s):
        k = next((k for k in case["sub"] if s.startswith(k, i)), None)
        out, i = (out + s[i], i + 1) if k is None else (out + case["sub"][k], i + len(k))
    eq(gu.multiple_regex_replace(s, case["sub"]), out, "replacements")
    w = case["word"]
    if w.lower() in ("true", "false"):
        check(fm.str_to_bool(w) is (w.lower() == "true"), "boolean")
    else:
        raises(ValueError, lambda: fm.str_to_bool(w), f"boolean {w!r}")
    eq(fm.str_to_float(repr(case["x"])), case["x"], "number")
    a, b = case["ab"]
    eq(fm.str_to_float(f"{a}/{b}"), a / b, "fraction")
    d = {k.lower(): v for k, v in case["ini"].items()}
    f = ctx.tmp() / "d.ini"
    f.write_text("[other]\nx = 1\n[defaults]\n" + "".join(f"{k} = {v}\n" for k, v in d.items()))
    got = gu.get_defaults_from_inifile(f)
    eq(got, d, "defaults of the file")
    eq({k: type(v) for k, v in got.items()}, {k: type(v) for k, v in d.items()}, "kinds of the defaults")
    p, q = case["probes"]
    key = gu.get_probes_combination_key(p, q)
    eq(tuple(gu.get_probes_from_comb_key(key)), (p, q), "probes of a key")
    eq(tuple(gu.get_probes_from_comb_key(gu.reverse_probes_comb_key(key))), (q, p), "reversed key")
    eq(gu.replace_fullnames_with_aliases(f"{q} and {p}"), f"{gu.probe_fullname_to_alias(q)} and {gu.probe_fullname_to_alias(p)}", "aliases")
    eq(gu.probe_alias_to_fullname(gu.probe_fullname_to_alias(p)), p, "alias translated back")


# ---------------------------------------------------------------- scheduler
WORD = st.text("abcxyzABC019._-", min_size=1, max_size=8)
JOBROW = st.fixed_dictionaries({"id": st.integers(1, 10 ** 8), "user": WORD, "stat": st.sampled_from(["RUN", "PEND", "DONE", "EXIT", "SSUSP", "UNKWN"]), "queue": st.sampled_from(["medium", "long", "short_8h"]), "from": st.sampled_from(["farmui02", "teo-01"]), "host": st.sampled_from(["teo25", "4*teo25", "2*a:2*b"]), "name": st.lists(WORD, min_size=1, max_size=3).map(" ".join),
                                "time": st.builds(lambda d, h, m: f"{['Jan', 'Dec', 'May'][d % 3]} {d:2d} {h:02d}:{m:02d}", st.integers(1, 31), st.integers(0, 23), st.integers(0, 59))})


@CHECK.prop(st.fixed_dictionaries({"jobs": st.lists(JOBROW, max_size=6, unique_by=lambda j: j["id"]), "pad": st.integers(1, 4), "lead": st.integers(0, 2), "header": st.booleans(), "bytes": st.booleans(), "id": st.integers(1, 10 ** 9), "queue": st.sampled_from(["<medium>.", "default queue <long>.", "queue <x>."]), "noise": st.sampled_from(["", "Warning: 12 jobs\n", "MEMLIMIT\n\n", "Job not yet <5>\n"])}),
            quick=200, thorough=4000, rule="several jobs")
def scheduler(case, ctx):
    b = bsub_utils.BsubInterface()
    jobs = case["jobs"]
    ctx.nontrivial(len(jobs) > 1)
    enc = (lambda s: s.encode()) if case["bytes"] else (lambda s: s)
    sep = " " * case["pad"]
    rows = [[str(j["id"]), j["user"], j["stat"], j["queue"], j["from"], "-" if j["stat"] == "PEND" else j["host"], j["name"], j["time"]] for j in jobs]
    text = ("JOBID   USER    STAT  QUEUE      FROM_HOST   EXEC_HOST   JOB_NAME   SUBMIT_TIME\n" if case["header"] else "") + "".join(" " * case["lead"] + sep.join(r) + "\n" for r in rows)
    df = b.parseBjobsOutput(enc(text))
    eq([list(map(str, r)) for r in df.to_numpy()], [r[:3] for r in rows], "jobs of the table")
    eq(list(df.columns), ["JOBID", "USER", "STAT"], "columns")
    df = b.parseBjobsOutput(enc(text), basic_regex=False)
    eq(list(df.columns), ["JOBID", "USER", "STAT", "QUEUE", "FROM_HOST", "EXEC_HOST", "JOB_NAME", "SUBMIT_TIME"], "columns")
    eq([list(map(str, r)) for r in df.to_numpy()], rows, "jobs of the full table")
    eq(str(b.getJobID(enc(case["noise"] + f"Job <{case['id']}> is submitted to {case['queue']}\n"))), str(case["id"]), "number of the submitted job")
    raises(Exception, lambda: b.getJobID(enc("Request aborted by esub. Job not submitted.\n")), "a refused submission")
    eq(len(b.parseBjobsOutput(enc("No unfinished job found\n"))), 0, "no jobs")


SUMMARY = st.fixed_dictionaries({"id": st.integers(1, 10 ** 6), "start": st.datetimes(datetime.datetime(2019, 1, 1), datetime.datetime(2035, 1, 1)).map(lambda t: t.replace(microsecond=0).isoformat()), "secs": st.one_of(st.integers(0, 7200), st.integers(80000, 400000)), "hosts": st.lists(st.sampled_from(["teo25", "4*teo26", "farm3"]), unique=True, min_size=1, max_size=3), "cpu": st.integers(0, 10 ** 7).map(lambda x: x / 100),
                                 "mem": st.tuples(*[st.integers(0, 99999)] * 2), "avg": st.integers(0, 10 ** 6).map(lambda x: x / 100), "status": st.sampled_from(["Done", "Exited"])})
NAME = st.sampled_from(["auto_corrs", "phph+spsp", "C_wlwl_2020_run", "job", "a_2021", "WL_202_x"])


def lsf_text(j):
    a = datetime.datetime.fromisoformat(j["start"])
    b = a + datetime.timedelta(seconds=j["secs"])
    f = lambda t: t.strftime("%a %b ") + f"{t.day:2d}" + t.strftime(" %H:%M:%S %Y")  # noqa: E731
    hosts = ("\n" + " " * 28).join(f"<{h}.ge.infn.it>" + (", in queue <medium>, as user <x> in cluster <farm>" if k == 0 else "") for k, h in enumerate(j["hosts"]))
    return f"""Sender: LSF System <lsfadmin@teo25.ge.infn.it>
Subject: Job {j['id']}: <./run.sh 77> in cluster <farm> {j['status']}

Job <./run.sh 77> was submitted from host <farmui02.ge.infn.it> by user <x> in cluster <farm>.
Job was executed on host(s) {hosts}.
</home/x> was used as the home directory.
Started at {f(a)}
Results reported on {f(b)}

Your job looked like:

Successfully completed.

Resource usage summary:

    CPU time :                                   {j['cpu']:.2f} sec.
    Max Memory :                                 {j['mem'][0]} MB
    Average Memory :                             {j['avg']:.2f} MB
    Total Requested Memory :                     {j['mem'][0] + j['mem'][1]}.00 MB
    Delta Memory :                               {j['mem'][1]}.00 MB
    Max Swap :                                   -
    Max Processes :                              4

"""


@CHECK.prop(st.fixed_dictionaries({"jobs": st.lists(st.tuples(NAME, SUMMARY), min_size=1, max_size=4, unique_by=lambda x: x[0]), "stamp": st.datetimes(datetime.datetime(2019, 1, 1), datetime.datetime(2099, 1, 1)).map(lambda t: t.replace(microsecond=0).isoformat())}), quick=80, thorough=1500, rule="several jobs or a job of more than a day")
def resources(case, ctx):
    tmp = ctx.tmp()
    ctx.nontrivial(len(case["jobs"]) > 1 or case["jobs"][0][1]["secs"] > 86400)
    stamp = fm.datetime_str_format(datetime.datetime.fromisoformat(case["stamp"]))
    for n, j in case["jobs"]:
        (tmp / f"out_{n}_{stamp}.out").write_text(lsf_text(j))
    (tmp / "other.txt").write_text("nothing")
    df = bsub_utils.BsubInterface().getResourceUsageTable(tmp)
    eq(sorted(df["fisher"]), sorted(n for n, _ in case["jobs"]), "jobs of the table")
    for n, j in case["jobs"]:
        (row,) = [r for _, r in df.iterrows() if r["fisher"] == n]
        start = datetime.datetime.fromisoformat(j["start"])
        eq((row["start_time"].to_pydatetime(), row["end_time"].to_pydatetime()), (start, start + datetime.timedelta(seconds=j["secs"])), "times")
        for k, v in (("duration_s", j["secs"]), ("cpu_time_s", j["cpu"]), ("max_mem_MB", j["mem"][0]), ("avg_mem_MB", j["avg"]), ("req_mem_MB", sum(j["mem"])), ("delta_mem_MB", j["mem"][1])):
            close(float(row[k]), v, f"{k} of {n}", atol=1e-9)
        close(decode_duration(row["duration_h_m_s_ms"]), j["secs"], "duration", atol=1e-6)


JOB = st.fixed_dictionaries({"err": st.sampled_from([None, "", "", "", "Traceback", "Core dump created"]), "out": st.one_of(st.none(), SUMMARY, SUMMARY, st.just("plain")), "output": st.one_of(st.none(), st.integers(0, 3000), st.integers(0, 3000)), "core": st.booleans()})
STAGE = st.fixed_dictionaries({"jobs": st.lists(JOB, max_size=4), "good": st.booleans(), "link": st.sampled_from([False, False, False, True]), "there": st.sampled_from([True, True, False])})


@CHECK.prop(st.fixed_dictionaries({"PowerSpectrum": STAGE, "Angular": STAGE, "Derivative": STAGE, "Fisher": STAGE}), quick=80, thorough=1500, rule="several jobs with different outcomes")
def reports(case, ctx):
    tmp = ctx.tmp()
    run = tmp / "run_x"
    run.mkdir()
    want = {}
    for stage, s in case.items():
        if not s["there"]:
            continue
        d = run / stage
        real = tmp / "elsewhere" / stage if s["link"] else d
        real.mkdir(parents=True)
        if s["link"]:
            d.symlink_to(real)
        jobs = {}
        for i, j in enumerate(s["jobs"]):
            if s["good"]:
                j = {**j, "err": "", "output": j["output"] or 5}
            jd = real / f"job_{i}"
            jd.mkdir()
            if j["err"] is not None:
                (jd / "job_1.err").write_text(j["err"])
            if j["out"] is not None:
                (jd / "job_1.out").write_text("hello\n" if j["out"] == "plain" else lsf_text(j["out"]))
            if j["output"] is not None:
                (jd / ("f.csv" if stage == "Fisher" else "x.h5")).write_bytes(b"x" * j["output"])
            core = bool(j["err"]) and (j["core"] or "Core" in j["err"])
            if bool(j["err"]) and j["core"]:
                (jd / "core.123").write_text("")
            (jd / "x.log").write_text("")
            for other in ("core_settings.json", "cores.1", "score.7"):
                (jd / other).write_text("{}")
            status = ("NOT_EXECUTED" if j["out"] is None else "UNDEFINED") if j["err"] is None else "FAILURE" if j["err"] else "SUCCESS" if j["output"] is not None else "UNDEFINED"
            lsf = j["out"] if isinstance(j["out"], dict) else None
            jobs[jd.name] = {"status": status, "id": str(lsf["id"]) if lsf else None, "secs": lsf["secs"] if lsf else 0, "hosts": lsf["hosts"] if lsf else [], "size": j["output"] / 1e6 if status == "SUCCESS" else 0, "core": core}
        if not s["link"]:
            want[stage] = jobs
    if not want:
        return
    ctx.nontrivial(len({j["status"] for jobs in want.values() for j in jobs.values()}) > 1)
    maker = report_maker.RunReportMaker(run)
    maker.buildTaskReportMakers()
    maker.writeReportFiles()
    report, summary = (run / f"report_{run.name}.log").read_text(), (run / f"summary_{run.name}.log").read_text()
    eq({t.workdir.name for t in maker.task_report_makers}, set(want), "stages")

    def overall(x):
        return "FAILURE" if "FAILURE" in x else "SUCCESS" if set(x) == {"SUCCESS"} else "NOT_EXECUTED" if set(x) == {"NOT_EXECUTED"} else "NOT_COMPLETED" if set(x) <= {"SUCCESS", "NOT_EXECUTED"} else "UNDEFINED"
    stages = []
    for t in maker.task_report_makers:
        jobs = want[t.workdir.name]
        if not jobs:
            check(t.status != "FAILURE", "a stage without jobs has no failure")
            stages.append(t.status)
            continue
        status = overall([j["status"] for j in jobs.values()])
        stages.append(status)
        eq(t.status, status, f"outcome of {t.workdir.name}")
        got = {r.jobdir.name: r for r in t.job_reports}
        eq(set(got), set(jobs), "jobs")
        for n, j in jobs.items():
            r = got[n]
            eq((r.status, r.job_id, bool(r.core_dumped)), (j["status"], j["id"], j["core"]), f"outcome of {n}")
            close(r.execution_time_secs, j["secs"], "execution time")
            close(r.output_size_MB, j["size"], "size", atol=1e-12)
            eq(sorted(r.exec_hosts), sorted(j["hosts"]), "hosts")
            (part,) = re.findall(rf"^## {n}\n(.*?)(?=\n\n|\Z)", r.getReport(), re.S | re.M)
            eq(re.search("JobID: (.*)", part).group(1), str(j["id"]), "number of the job in the report")
            eq(re.search("Status: (.*)", part).group(1), j["status"], "outcome in the report")
            close(decode_duration(re.search("Execution Time: (.*)", part).group(1)), j["secs"], "duration in the report", atol=1e-6)
            check(r.getReport() in report, "the report of the job is part of the report")
        count = {s: sum(j["status"] == s for j in jobs.values()) for s in ("SUCCESS", "FAILURE", "NOT_EXECUTED", "UNDEFINED")}
        eq((t.n_jobs, t.n_succeeded_jobs, t.n_failed_jobs, t.n_not_executed_jobs, t.n_undefined_jobs, t.n_core_dumps), (len(jobs), count["SUCCESS"], count["FAILURE"], count["NOT_EXECUTED"], count["UNDEFINED"], sum(j["core"] for j in jobs.values())), "counts")
        close(t.mean_exec_time, sum(j["secs"] for j in jobs.values()) / len(jobs), "mean time", rtol=1e-12)
        close(t.total_output_size_MB, sum(j["size"] for j in jobs.values()), "total size", atol=1e-12)
        for kind, s in (("good", "SUCCESS"), ("bad", "FAILURE")):
            eq(set(t.hosts[kind]), {h for j in jobs.values() if j["status"] == s for h in j["hosts"]}, f"{kind} hosts")
        if status != "NOT_EXECUTED":
            for text in (report, summary):
                part = text[text.index(f"########### WORKDIR: {t.workdir.name} {status} ####"):]
                check(f"{count['SUCCESS']}/{len(jobs)} jobs succeeded" in part.split("########### WORKDIR")[1], "counts in the summary")
                check(f"{count['FAILURE']}/{len(jobs)} jobs failed" in part.split("########### WORKDIR")[1], "counts in the summary")
                close(decode_duration(re.search("Mean Execution Time: (.*)", part).group(1)), t.mean_exec_time, "mean time in the summary", atol=1e-6)
    if all(want.values()):
        total = overall(stages) if set(stages) != {"NOT_EXECUTED"} else "NOT_COMPLETED"
        eq(maker.status, total, "outcome of the run")
    for text in (report, summary):
        check(text.startswith(f"Run {run.name}: {maker.status}\n"), "outcome in the files")


# ---------------------------------------------------------------- tables
@st.composite
def table(draw):
    fishers = draw(st.lists(st.sampled_from(FISHERS), unique=True, min_size=2, max_size=5))
    bins = draw(st.lists(st.sampled_from([4, 12, 24, 40]), unique=True, min_size=1, max_size=3))
    return {"fishers": fishers, "bins": bins, "pars": draw(st.lists(st.sampled_from(PARS), unique=True, min_size=1, max_size=4)), "seed": draw(st.integers(0, 10 ** 6)), "scen": draw(st.lists(st.sampled_from(["optimistic", "pessimistic"]), unique=True, min_size=1)), "reduced": draw(st.lists(st.booleans(), unique=True, min_size=1)),
            "pick": draw(st.permutations(fishers)), "n": draw(st.integers(2, 5)), "query": draw(st.fixed_dictionaries({}, optional={"scenario": st.just("optimistic"), "n_sp_bins": st.sampled_from(bins), "shot_noise_sp_reduced": st.booleans()})), "drop": draw(st.booleans()), "const": draw(st.booleans()), "given": draw(st.booleans()), "neg": draw(st.booleans()), "minibins": draw(st.booleans())}


def frame(case, scen=("optimistic",), reduced=(False,)):
    rows = [(f, b, s, r) for f in case["fishers"] for b in case["bins"] for s in scen for r in reduced]
    order = np.argsort(lcg(case["seed"], len(rows)))
    rows = [rows[i] for i in order]
    df = pd.DataFrame(rows, columns=["fisher", "n_sp_bins", "scenario", "shot_noise_sp_reduced"])
    for k, c in enumerate(["FoM"] + case["pars"]):
        df[c] = lcg(case["seed"] + k + 1, len(rows), 0, 1) * (400 if c == "FoM" else 2 if k % 2 else 1e-2)
    return df


def by_key(df, *cols):
    return {tuple(r[c] for c in cols): r for r in df.to_dict("records")}


@CHECK.prop(table(), quick=60, thorough=1200, rule="several Fisher matrices and numbers of bins")
def tables(case, ctx):
    warnings.simplefilter("ignore")
    tmp = ctx.tmp()
    ctx.nontrivial(len(case["fishers"]) > 2 and len(case["bins"]) > 1)
    values = ["FoM"] + case["pars"]
    df = frame(case, case["scen"], case["reduced"])
    # selection
    sel = th.select_from_query_dict(df, case["query"], drop_index=case["drop"], remove_constant_columns=case["const"]) if case["query"] else df
    rows = [r for r in df.to_dict("records") if all(r[k] == v for k, v in case["query"].items())]
    cols = [c for c in df.columns if not (case["query"] and case["const"] and len(rows) > 1 and len({r[c] for r in rows}) == 1)]
    if rows:
        eq(sel.to_dict("records"), [{c: r[c] for c in cols} for r in rows], "selected rows")
    else:
        eq(len(sel), 0, "selected rows")
    raises(KeyError, lambda: th.select_from_query_dict(df, {"unknown": 1}), "unknown column")
    eq(th.drop_not_numeric_columns(df).to_dict("list"), df[["n_sp_bins"] + values].to_dict("list"), "numeric columns")
    # selection of one kind of forecast, with the standard values of the options left out
    std = {"scenario": "optimistic", "shot_noise_sp_reduced": False, "gcph_minus_gcsp": False, "gcph_only_bins_in_spectro_range": False}
    left = [k for k in std if case["seed"] >> sorted(std).index(k) & 1]
    eq(th.query_dict(exclude=left or None, **case["query"], other=3), {k: case["query"].get(k, v) for k, v in std.items() if k not in left}, "query")
    # order and subset
    df = frame(case).drop(columns=["scenario", "shot_noise_sp_reduced"])
    names = case["pick"][:case["n"]]
    src = by_key(df, "fisher", "n_sp_bins")
    sub = th.get_subdf_for_fishers(df, ordered_names=names, sort_by=["fisher", "n_sp_bins"])
    eq([(r["fisher"], r["n_sp_bins"]) for r in sub.to_dict("records")], [(f, b) for f in names for b in sorted(case["bins"])], "rows of the selected Fisher matrices")
    for key, r in by_key(sub, "fisher", "n_sp_bins").items():
        eq({c: r[c] for c in values}, {c: src[key][c] for c in values}, f"values of {key}")
    raises(KeyError, lambda: th.get_subdf_for_fishers(df, ordered_names=names + ["[nothing]"]), "unknown Fisher matrix")
    # differences
    ind = th.set_results_indices(df, inplace=False)
    eq([tuple(i) for i in ind.index], sorted(src), "sorted index")
    part = ind.loc[sorted(names)] if case["n"] > 1 else ind
    ref, others = names[0], sorted(names)
    for fn, formula in ((th.compute_percentage_differences_table, lambda a, b: 100 * (a - b) / b), (th.compute_simple_differences_table, lambda a, b: a - b)):
        diff = fn(part, ref_fisher=ref, minuend_fishers=others if case["given"] else None)
        eq(sorted(map(tuple, diff.index)), sorted((f, b) for f in others for b in case["bins"]), "rows of the differences")
        for (f, b), r in diff.iterrows():
            for c in values:
                close(r[c], formula(src[f, b][c], src[ref, b][c]), f"difference of {c} of {f}", rtol=1e-12, atol=1e-12)
        flat = fn(part.xs(case["bins"][0], level="n_sp_bins"), ref_fisher=ref, minuend_fishers=others)
        for f in others:
            for c in values:
                close(flat.loc[f, c], formula(src[f, case["bins"][0]][c], src[ref, case["bins"][0]][c]), f"difference of {c} of {f}", rtol=1e-12, atol=1e-12)
    dmap = {f: ref for f in names[1:]}
    fom = th.get_fom_table_for_fishers(df, names, dmap)
    eq(sorted((str(a), b) for a, b in fom.index), sorted((f, b) for f in names for b in case["bins"]), "rows of the table")
    for (f, b), r in fom.iterrows():
        for c in values:
            eq(r[c], src[f, b][c], f"{c} of {f}")
        d = src[f, b]["FoM"] - src[ref, b]["FoM"]
        if f in dmap:
            close(r["Delta FoM"], d, "FoM difference", atol=1e-9)
            close(r["Delta FoM (%)"], 100 * d / src[ref, b]["FoM"], "relative FoM difference", rtol=1e-9, atol=1e-9)
        else:
            check(np.isnan(r["Delta FoM"]) and np.isnan(r["Delta FoM (%)"]), "no difference without a reference")
    # TeX
    show = fom.copy()
    show.index = pd.MultiIndex.from_tuples([(str(a), b) for a, b in fom.index], names=["fisher", "n_sp_bins"])
    show = show.sort_index()
    f = tmp / "t.tex"
    text = th.write_latex_table(show, filepath=f)
    eq(f.read_text(), text, "file of the table")
    lines = text.split("\\midrule", 1)[1].split("\\bottomrule")[0].replace("\\midrule", "").splitlines()
    lines = [x.strip()[:-2] for x in lines if x.strip()]
    eq(len(lines), len(show), "rows of the TeX table")
    head = [x.strip() for x in text.split("\\toprule")[1].strip().splitlines()[0][:-2].split("&")]
    eq(head[2:], [re.sub(r"FoM", r"\\FoM", c).replace("%", r"\%") if "FoM" in c else ALIAS_PAR[c] for c in show.columns], "header of the TeX table")
    last = None
    for line, ((fi, b), r) in zip(lines, show.iterrows()):
        cells = [x.strip() for x in line.split("&")]
        m = re.fullmatch(r"\\multirow\{\d+\}\{\*\}\{(.*)\}", cells[0])
        last = (m.group(1) if m else cells[0]) or last
        eq((untex(last, True), int(cells[1])), (fi, b), "row of the TeX table")
        for c, cell in zip(show.columns, cells[2:]):
            if np.isnan(r[c]):
                eq(cell, "NaN", "missing value")
                continue
            if c == "Delta FoM (%)":
                m = re.fullmatch(r"\\(positive|negative)\{([+-][0-9.]+)\\%\}", cell)
                check(m or cell == r"\text{--}", f"cell {cell}")
                if m:
                    eq(m.group(1), "negative" if r[c] < 0 else "positive", "colour of the cell")
                cell = m.group(2) if m else "0"
            if c == "Delta FoM":
                check(cell[0] in "+-", "sign")
            close(float(cell), r[c], f"{c} in the TeX table", atol=0.00501 if "FoM" in c else 0.0000501)
    # rows
    for key, r in list(src.items())[:2]:
        row = pd.Series(({"nbins": key[1]} if not case["minibins"] else {}) | {"fisher": key[0], "FoM": r["FoM"]} | {c: r[c] for c in case["pars"]})
        other = src[ref, key[1]]["FoM"]
        for base in (None, other):
            t = th.get_latex_row(row, ref_fom=base)
            check(t.endswith(r" \\"), "end of the row")
            cells = [x.strip() for x in t[:-3].split(" & ")]
            eq(len(cells), len(row) + 1, "cells of the row")
            if not case["minibins"]:
                eq(int(cells.pop(0)), key[1], "number of bins")
            eq(untex(cells[0], False), key[0], "Fisher matrix of the row")
            close(float(cells[1]), r["FoM"], "FoM of the row", atol=0.00501)
            if base is None:
                eq(cells[2], "--", "no reference")
            else:
                m = re.fullmatch(r"([+-]\d+\.\d\d)\\%", cells[2])
                check(m, f"difference {cells[2]!r}")
                close(float(m.group(1)), 100 * (r["FoM"] - base) / base, "difference of the row", atol=0.00501)
            for c, cell in zip(case["pars"], cells[3:]):
                close(float(cell), r[c], f"{c} of the row", atol=0.0000501)
    # files
    out = tmp / "t.xlsx"
    th.write_excel_table(ind, out)
    raises(FileExistsError, lambda: th.write_excel_table(ind * 2, out), "existing table")
    back = by_key(pd.read_excel(out), "fisher", "n_sp_bins")
    eq(set(back), set(src), "rows of the file")
    for k in src:
        for c in values:
            close(back[k][c], src[k][c], f"{c} of the file", rtol=1e-14)
    th.write_excel_table(ind * 2, out, overwrite=True)
    close(by_key(pd.read_excel(out), "fisher", "n_sp_bins")[k][c], 2 * src[k][c], "overwritten table", rtol=1e-14)
    if 4 in case["bins"]:
        df.sample(frac=1, random_state=1).to_excel(tmp / "r.xlsx", index=False)
        import contextlib
        with contextlib.redirect_stdout(io.StringIO()):
            got = by_key(th.load_and_setup_table(tmp / "r.xlsx"), "fisher", "n_sp_bins")
        eq(set(got), set(src), "rows of the loaded table")
        for (fi, b), r in got.items():
            for c in values:
                close(r[c], src[fi, 4 if "GCsp(Pk)" in fi else b][c], f"{c} of the loaded table", rtol=1e-14)
    for suffix in (".csv", ".xlsx"):
        out = tmp / f"w{suffix}"
        table_utils.write_dataframe_table(df, out, index=False)
        table_utils.write_dataframe_table(df.iloc[:1], out, index=False)
        back = by_key(pd.read_csv(out, float_precision="round_trip") if suffix == ".csv" else pd.read_excel(out), "fisher", "n_sp_bins")
        eq(set(back), set(src), "an existing table is kept")
        for k in src:
            for c in values:
                close(back[k][c], src[k][c], f"{c} of the {suffix} file", rtol=1e-14)
        table_utils.write_dataframe_table(df.iloc[:1], out, overwrite=True, index=False)
        eq(len(pd.read_csv(out) if suffix == ".csv" else pd.read_excel(out)), 1, "an overwritten table")
    raises(Exception, lambda: table_utils.write_dataframe_table(df, tmp / "t.doc"), "unknown format")

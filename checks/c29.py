"""C29: the jobs that run are exactly the jobs asked for."""
import argparse
import itertools
import logging
import re
import runpy
import signal
import stat
import subprocess
import sys
import time
from coslib import *
import parlib
from seyfert.config import cmd_line
from seyfert.main import bsub_utils, orchestration, seyfert_core, task_runners
from seyfert.main.bsub_utils import ExitedBatchJobError
from seyfert.utils import filesystem_utils as fsu
from seyfert.utils.workspace import WorkSpace
from seyfert import VERSION

CHECK = Check("C29", ["The programs of the pipeline and of the batch system (bsub, bjobs) are stubs recording their working directory and arguments.",
                      "Forecast configurations given to one orchestration have distinct file names, and so have the power spectra."])
PROGRAMS = ["compute_pmm", "compute_cls", "compute_derivatives", "compute_fisher_matrix", "evaluate_final_results", "job_submitter", "run_seyfert"]
STUB = r"""#!/bin/bash
n=$(( $(cat "$STUB_DIR/count" 2>/dev/null || echo 0) + 1 )); echo $n > "$STUB_DIR/count"
printf '%s\0' "@@" "$(basename "$0")" "$PWD" "$@" >> "$STUB_DIR/log"
[ "$(basename "$0")" = job_submitter ] && [ -f "$STUB_DIR/hook" ] && "$STUB_DIR/hook" "$@"
if [ "$n" = "$(cat "$STUB_DIR/fail_at" 2>/dev/null)" ]; then
  case "$(cat "$STUB_DIR/fail_how")" in exit) exit 3;; stderr) echo oops >&2;; both) echo oops >&2; exit 1;; kill) kill -9 $$;; out) echo fine;; esac
fi
exit 0
"""
BSUB = r"""#!/bin/bash
n=$(( $(cat "$STUB_DIR/jobs" 2>/dev/null || echo 1000) + 1 )); echo $n > "$STUB_DIR/jobs"
printf '%s\0' "@@" bsub "$PWD" "$@" >> "$STUB_DIR/log"
while [[ "$1" == -* ]]; do case "$1" in -R*) shift;; *) shift 2;; esac; done
[ -f "$STUB_DIR/run" ] && "$@" > /dev/null 2>&1
echo "Job <$n> is submitted to queue <long>."
"""
BJOBS = r"""#!/bin/bash
n=$(( $(cat "$STUB_DIR/polls" 2>/dev/null || echo 0) + 1 )); echo $n > "$STUB_DIR/polls"
printf '%s\0' "@@" bjobs "$PWD" "$@" >> "$STUB_DIR/log"
echo "JOBID      USER    STAT  QUEUE      FROM_HOST   EXEC_HOST   JOB_NAME   SUBMIT_TIME"
k=0
for a in "$@"; do case "$a" in -*) ;; *)
  s=$(cut -d' ' -f$n "$STUB_DIR/states$(( k % $(cat "$STUB_DIR/nstates") ))" 2>/dev/null); [ -z "$s" ] && s=DONE
  printf '%-10s %-7s %-5s %-10s %-11s %-11s %-10s %s\n' "$a" "$(cat "$STUB_DIR/user")" "$s" long ui01.org 4*wn12.org "RUN $k-" "Nov  3 10:12"; k=$((k+1));; esac; done
"""
NAMECH = st.sampled_from(["run", "a b", "it's", "x;y", "$HOME", "q\"q", "p&q", "(1)", "ünï", "*", "-d", "#c"])
TEXT = st.sampled_from(["w", "my dir", "o'k", "a$b", "x;y", "1"])


class Stubs:
    def __init__(self, ctx, programs=PROGRAMS):
        self.dir = ctx.tmp()
        (self.dir / "bin").mkdir()
        for name in programs + ["bsub", "bjobs"]:
            f = self.dir / "bin" / name
            f.write_text({"bsub": BSUB, "bjobs": BJOBS}.get(name, STUB))
            f.chmod(0o755)
        self.reset()

    def reset(self, **files):
        for f in self.dir.iterdir():
            if f.is_file():
                f.unlink()
        for k, v in {"nstates": "1", "user": "luca", **files}.items():
            (self.dir / k).write_text(str(v))

    def __enter__(self):
        self.env, self.sleep, self.slept = dict(os.environ), time.sleep, []
        os.environ.update({"STUB_DIR": str(self.dir), "PATH": f"{self.dir}/bin:{os.environ['PATH']}"})
        os.environ.pop("VIRTUAL_ENV", None)
        time.sleep = self.wait
        return self

    def __exit__(self, *a):
        time.sleep = self.sleep
        os.environ.clear()
        os.environ.update(self.env)

    def wait(self, seconds):
        self.slept.append(seconds)
        check(len(self.slept) < 1000, "waits although all of the jobs are done", sig="waits forever")

    def mark(self, name):
        with open(self.dir / "log", "a") as f:
            f.write(f"@@\0{name}\0\0")

    def calls(self):
        f = self.dir / "log"
        words = f.read_text().split("\0")[:-1] if f.exists() else []
        out = []
        for w in words:
            if w == "@@":
                out.append([])
            else:
                out[-1].append(w)
        return [(c[0], c[1], c[2:]) for c in out]


def options(argv):
    """--key value ..., positional"""
    opts, pos, i = {}, [], 0
    while i < len(argv):
        if argv[i].startswith("-") and i + 1 < len(argv):
            opts[argv[i].lstrip("-")] = argv[i + 1]
            i += 2
        else:
            pos.append(argv[i])
            i += 1
    return opts, pos


def script_module(name):
    root = logging.getLogger()
    keep = list(root.handlers)
    try:
        return runpy.run_path(f"/repo/bin/{name}", run_name="module")
    finally:
        for h in [h for h in root.handlers if h not in keep]:
            root.removeHandler(h)


def arguments(**kw):
    a = cmd_line.JobSubmitterCommandLineArgs({"execution": "interactive", "queue": "long", "memory": 2048, "n_cores_per_job": 1, "verbose": False, "test": False, "overwrite_results": False,
                                              "input_data_dir": ".", **kw})
    return a


def expected_jobs(task, case):
    n = len(case["disps"])
    steps = [k for k in range(-n, n + 1) if k]
    pars = [p for p in case["params"] if p["free"]]
    if task == "Derivative":
        return [(p["name"],) for p in pars]
    if task == "PowerSpectrum":
        pars = [p for p in pars if p["kind"] == parlib.C]
    return [("central", 0)] + [(p["name"], s) for p in pars if p["method"] == "SteM" for s in steps]


def dirname(job):
    return fsu.get_cosmology_jobdir_name(*job) if len(job) == 2 else fsu.get_derivative_jobdir_name_from_dvar(job[0])


MAIN = {"PowerSpectrum": "compute_pmm", "Angular": "compute_cls", "Derivative": "compute_derivatives", "Fisher": "compute_fisher_matrix"}
SMALL = parlib.collection(flat=False).map(lambda c: {**c, "disps": c["disps"][:2], "params": c["params"][:4]})


def make_config(task, path, extra):
    data = {"PowerSpectrum": {"redshift_grid": {"z_min": 0.1, "z_max": 1, "n_redshifts": 3}, "boltzmann_codes_settings": {"code": "CAMB", "camb": {"ini_filename": "camb_planck_2018.ini"}}},
            "Angular": {"cl_integration_settings": {}}, "Derivative": {"dvar": "x"}, "Fisher": {"fisher_formula": "y"}}[task]
    path.parent.mkdir(parents=True, exist_ok=True)
    path.write_text(json.dumps({**data, "extra": extra}))
    return path


def check_job_call(call, task, rundir, config_name):
    prog, cwd, argv = call
    eq(prog, MAIN[task], "program of the job")
    opts, pos = options(argv)
    eq((pos, set(opts)), ([], {"workdir", "logfile", "main_config", "rundir"}), f"arguments of the job {argv}")
    eq((opts["workdir"], opts["rundir"], opts["main_config"]), (cwd, str(rundir), config_name), "folders and configuration of the job")
    check("/" not in opts["logfile"], "the log file is the job's own")
    return Path(cwd).name


@CHECK.prop(st.fixed_dictionaries({"task": st.sampled_from(["PowerSpectrum", "Angular", "Derivative"]), "pars": SMALL, "where": NAMECH, "config": st.sampled_from(["c.json", "my config.json"]),
                                   "fail": st.tuples(st.integers(1, 12), st.sampled_from(["exit", "stderr", "both", "kill", "out", "none"])), "again": st.booleans(), "venv": st.booleans()}),
            quick=50, thorough=700, rule="several parameters, or a folder whose name needs quoting")
def interactive_jobs(case, ctx):
    tmp = ctx.tmp()
    task, c = case["task"], case["pars"]
    run = tmp / case["where"] / "run dir"
    run.mkdir(parents=True)
    pp = parlib.build(c)
    cfg = make_config(task, tmp / "in" / case["config"], 7)
    want = expected_jobs(task, c)
    ctx.nontrivial(len(want) > 3)
    ctx.label(task, f"failure: {case['fail'][1]}")
    with Stubs(ctx) as stubs:
        if case["venv"]:
            (tmp / case["where"] / "venv/bin").mkdir(parents=True)
            (tmp / case["where"] / "venv/bin/activate").write_text("export STUB_DIR=\"$STUB_DIR/\"\n")
            os.environ["VIRTUAL_ENV"] = str(tmp / case["where"] / "venv")
        runner = getattr(task_runners, f"{task}TaskRunner")(workspace=WorkSpace(run), args=arguments(), json_input=cfg, forecast_config=SimpleNamespace(phys_pars=pp, n_sp_bins=4))
        runner.createJobDirStructure()
        eq([p.name for p in run.iterdir()], [task], "what the run folder holds")
        names = sorted(dirname(j) for j in want)
        eq(sorted(p.name for p in (run / task).iterdir()), names, "job directories")
        for d in (run / task).iterdir():
            eq({**json.loads((d / case["config"]).read_text())}, {**json.loads(cfg.read_text()), "config_type": f"{task}Config"}, "configuration of a job")
            eq(sorted(p.suffix for p in d.iterdir()), sorted([".json", ".sh"] + ([".ini"] if task == "PowerSpectrum" else [])), "files of a job")
            if task == "PowerSpectrum":
                eq((d / "camb_planck_2018.ini").read_bytes(), (fsu.config_files_dir() / "camb_planck_2018.ini").read_bytes(), "settings of the solver")
        at, how = case["fail"]
        stubs.reset(**({"fail_at": at, "fail_how": how} if how != "none" else {}))
        fails = at <= len(want) and how not in ("none", "out")
        if fails:
            raises(task_runners.JobFailError, runner.executeJobsInteractively, f"job {at} of {len(want)} failing ({how})")
        else:
            runner.executeJobsInteractively()
        calls = stubs.calls()
        got = [check_job_call(cl, task, run, case["config"]) for cl in calls]
        eq(len(set(got)), len(got), "no job runs twice")
        eq(len(got), at if fails else len(want), "jobs which ran")
        check(set(got) <= set(names), f"jobs {set(got) - set(names)} were not asked for")
        eq({c[1] for c in calls}, {str(run / task / g) for g in got}, "working directories")
        if case["again"]:
            stubs.reset()
            again = getattr(task_runners, f"{task}TaskRunner")(workspace=WorkSpace(run), args=arguments(), json_input=cfg, forecast_config=SimpleNamespace(phys_pars=pp, n_sp_bins=4))
            again.createJobDirStructure()
            again.executeJobsInteractively()
            eq(sorted(check_job_call(cl, task, run, case["config"]) for cl in stubs.calls()), names, "jobs of a second run in the same folder")


STATES = st.lists(st.lists(st.sampled_from(["PEND", "RUN", "RUN", "SSUSP", "DONE"]), max_size=4), min_size=1, max_size=3)


@CHECK.prop(st.fixed_dictionaries({"task": st.sampled_from(["Angular", "Derivative"]), "pars": SMALL, "where": NAMECH, "states": STATES, "exit": st.one_of(st.none(), st.tuples(st.integers(0, 2), st.integers(0, 3))),
                                   "queue": st.sampled_from(["long", "medium"]), "mem": st.integers(100, 9000), "cores": st.integers(1, 16), "user": st.sampled_from(["luca", "luca2", "l.paganin", "L_P", "user-1"])}),
            quick=35, thorough=500, rule="jobs which take several polls to finish")
def batch_jobs(case, ctx):
    tmp = ctx.tmp()
    task, c = case["task"], case["pars"]
    run = tmp / case["where"]
    run.mkdir()
    cfg = make_config(task, tmp / "in" / "c.json", 7)
    want = sorted(dirname(j) for j in expected_jobs(task, c))
    if not want:
        return
    states = [list(s) for s in case["states"]]
    njobs = len(want)
    hit = None
    if case["exit"] is not None:
        k, t = case["exit"]
        k %= len(states)
        if k < njobs:
            states[k] = (states[k] + ["RUN"] * 4)[:t] + ["EXIT"]
    seq = [["DONE" if t >= len(s) else s[t] for s in (states[i % len(states)] for i in range(njobs))] for t in range(6)]
    polls = 0
    for row in seq:  # what the poller ought to do
        polls += 1
        if "EXIT" in row:
            hit = polls
            break
        if all(x == "DONE" for x in row):
            break
    ctx.nontrivial(polls > 1 and njobs > 1)
    ctx.label("failed job" if hit else "all done")
    with Stubs(ctx) as stubs:
        stubs.reset(run="", user=case["user"], nstates=len(states), **{f"states{i}": " ".join(s + ["", ""]) for i, s in enumerate(states)})
        runner = getattr(task_runners, f"{task}TaskRunner")(workspace=WorkSpace(run), args=arguments(execution="batch", queue=case["queue"], memory=case["mem"], n_cores_per_job=case["cores"]), json_input=cfg,
                                                           forecast_config=SimpleNamespace(phys_pars=parlib.build(c), n_sp_bins=4))
        runner.createJobDirStructure()
        if hit:
            raises(ExitedBatchJobError, runner.run, "a job exiting with an error")
        else:
            runner.run()
        calls = stubs.calls()
        subs = [a for n, _, a in calls if n == "bsub"]
        eq(len(subs), njobs, "submissions")
        for a in subs:
            opts, k = {}, 0
            while a[k].startswith("-"):
                if a[k].startswith("-R"):
                    opts["R"] = a[k][2:]
                    k += 1
                else:
                    opts[a[k][1:]] = a[k + 1]
                    k += 2
            eq((opts["q"], opts["M"], opts["n"]), (case["queue"], str(case["mem"]), str(case["cores"])), "resources asked for")
            eq({int(x) for x in re.findall(r"mem[>=](\d+)", opts["R"])}, {case["mem"]}, "memory asked for")
            (script,) = a[k:]
            d = Path(script).parent
            eq((d.parent, Path(opts["e"]).parent, Path(opts["o"]).parent, opts["e"] != opts["o"]), (run / task, d, d, True), "script and logs of a job")
            check(os.access(script, os.X_OK), "scripts can be executed")
        got = [check_job_call(cl, task, run, "c.json") for cl in calls if cl[0] == MAIN[task]]
        eq(sorted(got), want, "jobs which ran")
        asked = [a for n, _, a in calls if n == "bjobs"]
        ids = {str(1001 + i) for i in range(njobs)}
        eq([set(x for x in a if not x.startswith("-")) for a in asked], [ids] * polls, "states asked for until all is done")


# ---------------------------------------------------------------- a whole forecast
@st.composite
def whole(draw):
    return {"tasks": draw(st.lists(st.sampled_from(list(MAIN)), unique=True)), "ext": draw(st.lists(st.sampled_from(["PowerSpectrum", "Angular", "Derivative"]), unique=True)), "where": draw(NAMECH),
            "free": draw(st.lists(st.sampled_from(["Omm", "w0", "h", "ns"]), unique=True, min_size=1, max_size=2)), "bias": draw(st.booleans()), "nd": draw(st.integers(1, 2)),
            "ex": draw(st.sampled_from(["interactive", "interactive", "batch", "no"])), "id": draw(st.one_of(st.none(), st.sampled_from(["abc", "my run", "x_1"]))), "test": draw(st.booleans()), "nsp": draw(st.sampled_from([4, 24, 25, 40])),
            "fail": draw(st.one_of(st.none(), st.none(), st.integers(1, 20))), "days": draw(st.sampled_from([0, 0, 1, 5])), "mem": draw(st.integers(100, 9000)), "cores": draw(st.integers(1, 9)), "over": draw(st.booleans()),
            "again": draw(st.booleans()), "same": draw(st.booleans()), "fells": draw(st.booleans())}


@CHECK.prop(whole(), quick=40, thorough=600, rule="two or more tasks run one after the other")
def forecasts(case, ctx):
    import datetime
    tmp = ctx.tmp()
    work = tmp / case["where"]
    work.mkdir()
    os.chdir(work)
    tasks = [t for t in MAIN if t in case["tasks"]]
    ctx.nontrivial(len(tasks) > 1 and case["ex"] != "no")
    ctx.label(case["ex"], "failing job" if case["fail"] else "no failing job")
    data = tmp / "data"
    data.mkdir()
    for f in ("d.h5",):
        (data / f).touch()
    bias_file(data / "b.h5", "PhotometricGalaxy", "piecewise", [0.5, 1, 2], {"bgph0": 1.1, "bgph1": 1.2})
    pars = [{"name": n, "fiducial": v, "kind": "cosmological_parameter", "is_free_parameter": n in case["free"], "stem_factor": 1.0, "derivative_method": "SteM", "units": "None"} for n, v in FID_PARS.items()]
    pars = [{**p, "kind": parlib.C} for p in pars]
    fj = forecast_json({"PhotometricGalaxy": {"density_file": "d.h5", "bias_file": "b.h5", "marginalize_bias_flag": case["bias"]}}, params=pars, flat=False, disps=[0.01 * (i + 1) for i in range(case["nd"])])
    fj["synthetic_opts"]["n_sp_bins"] = case["nsp"]
    ff = tmp / "in" / "f.json"
    ff.parent.mkdir()
    ff.write_text(json.dumps(fj))
    cfgs = {t: make_config(t, tmp / "in" / (t if case["same"] else "all") / ("config.json" if case["same"] else f"{t}.json"), t) for t in MAIN}
    args = {"forecast_config": ff, "input_data_dir": data, "run_id": case["id"], "execution": case["ex"], "queue": "long", "memory": case["mem"], "n_cores_per_job": case["cores"], "verbose": False,
            "test": case["test"], "overwrite_results": case["over"]}
    ext = {}
    for t in MAIN:
        args[t.lower()] = t in tasks
        args[f"{t.lower()}_config"] = cfgs[t]
        args[f"{t.lower()}_dir"] = None
        if t in case["ext"]:
            d = tmp / "ext" / t / t
            d.mkdir(parents=True)
            (d.parent / "delta_cls.h5").write_text("")
            (d / "mark").write_text(t)
            args[f"{t.lower()}_dir"] = d
            if t not in tasks:
                ext[t] = d
    old_id = case["id"] or "run_seyfert"
    steps = [k for k in range(-case["nd"], case["nd"] + 1) if k]
    free = case["free"] + (["bgph0", "bgph1"] if case["bias"] else [])
    jobs = {"PowerSpectrum": [("central", 0)] + [(p, s) for p in case["free"] for s in steps], "Angular": [("central", 0)] + [(p, s) for p in free for s in steps], "Derivative": [(p,) for p in free]}
    auto, cross = task_runners.FisherTaskRunner.loadFisherDatavectorBriefStrings()
    check(set(auto) == {"phph", "spsp", "wlwl"} and len(set(cross) | set(auto)) == len(cross) + 3, "selected data vectors")
    fell = case["fells"] and not case["over"]

    def plan(ex):
        out = []
        if ex == "no":
            return out
        if "Angular" in tasks:
            out.append(("densities",))
        for t in tasks:
            if t == "Fisher":
                out.append(("fisher", tuple(auto)))
                out += [("fisher", (x,)) for x in cross] if ex == "batch" else [("fisher", tuple(cross))]
            else:
                out.append(("jobs", t, tuple(sorted(dirname(j) for j in jobs[t]))))
            if t == "Angular":
                out.append(("delta",))
        if "Fisher" in tasks:
            out.append(("ist",))
            out.append(("final",))
        return out

    class Runner(task_runners.ForecastRunner):
        def computeDensities(self):
            if self.args.execution != "no":
                stubs.mark("densities")

        def computeDeltaCls(self):
            if self.args.execution != "no":
                stubs.mark("delta")

        def writeGCspPkFishersTo(self, outdir):
            eq(Path(outdir), self.workspace.base_fishers_dir, "where the external Fisher matrix goes")
            stubs.mark("ist")

    old_host, task_runners.gu.get_execution_host = task_runners.gu.get_execution_host, lambda: ["h", "p"]
    try:
        with Stubs(ctx) as stubs:
            r = Runner(cmd_line_args=dict(args))
            want = plan(case["ex"])
            total = sum(len(w[2]) if w[0] == "jobs" else w[0] in ("fisher", "final") for w in want)
            fail = case["fail"] if case["fail"] and case["ex"] == "interactive" and case["fail"] < total else None
            stubs.reset(**({"fail_at": fail, "fail_how": "exit"} if fail else {}), **({"run": ""} if case["ex"] == "batch" else {}))
            if fail:
                raises(task_runners.JobFailError, r.doForecast, "a failing job")
            else:
                r.doForecast()
            run = Path(r.rundir)
            eq(run.parent, work.resolve(), "where the run folder is")
            base = f"{case['id']}_{VERSION}" if case["id"] else None
            if base:
                check(run.name == base if case["test"] else re.fullmatch(re.escape(base) + r"_\d{4}-\d\d-\d\dT\d\d-\d\d-\d\d", run.name), f"name {run.name} of the run folder")
            verify_calls(stubs.calls(), want, run, cfgs, fail, case)
            eq({p.name for p in work.iterdir()}, {run.name}, "nothing but the run folder is created")
            for t in MAIN:
                p = run / t
                if t in tasks and t != "Fisher":
                    eq(sorted(x.name for x in p.iterdir()), sorted(dirname(j) for j in jobs[t]), f"{t} jobs")
                    check(not p.is_symlink(), f"{t} is the run's own")
                elif t in ext:
                    check(os.path.samefile(p, ext[t]), f"{t} is linked")
                else:
                    check(not os.path.lexists(p), f"{t} was not asked for")
                eq(json.loads(WorkSpace(run).getTaskJSONPath(t).read_text())["extra"], t, "copied configuration")
            meta = json.loads((run / "run_metadata.json").read_text())
            eq((meta["code_version"], meta["external_dirs"], meta["run_id"]), (VERSION, {t: str(d) for t, d in ext.items()}, r.run_id), "metadata")
            eq("duration" in meta, not fail, "the duration of a finished run is recorded")
            if not fail:
                t0 = datetime.datetime(2021, 3, 1, 22, 0, 0)
                r.start_datetime, r.end_datetime = t0, t0 + datetime.timedelta(days=case["days"], seconds=3723)
                r.addTimingDataToMetadata()
                h, m, s = (int(x) for x in re.match(r"(\d+)h (\d+)m (\d+)s", r.metadata["duration"]).groups())
                eq(h * 3600 + m * 60 + s, case["days"] * 86400 + 3723, "recorded duration")
            if case["again"] and not fail:
                if case["fells"]:
                    (run / "auto_fisher_of_ells.h5").write_text("old")
                (run / "base_fishers").mkdir(exist_ok=True)
                (run / "base_fishers" / "old").write_text("")
                stubs.reset(**({"run": ""} if case["ex"] == "batch" else {}))
                marks = {p: p.read_bytes() for p in (run / "input_files_dir").iterdir()}
                r2 = Runner(cmd_line_args=dict(args), rundir=run)
                r2.doForecast()
                want2 = plan(case["ex"])
                if "Fisher" in tasks and case["ex"] == "batch" and case["fells"] and not case["over"]:
                    want2.remove(("fisher", tuple(auto)))
                verify_calls(stubs.calls(), want2, run, cfgs, None, case)
                eq({p.name for p in work.iterdir()}, {run.name}, "the existing run folder is used")
                eq({p: p.read_bytes() for p in (run / "input_files_dir").iterdir()}, marks, "input files of the existing run")
                if "Fisher" in tasks and case["ex"] != "no":
                    eq((run / "base_fishers" / "old").exists(), not case["over"], "old Fisher matrices are removed when asked to")
                    eq((run / "auto_fisher_of_ells.h5").exists(), case["fells"] and not case["over"], "old Fisher matrices per multipole are removed when asked to")
                else:
                    check((run / "base_fishers" / "old").exists(), "Fisher matrices are left alone")
    finally:
        task_runners.gu.get_execution_host = old_host


def verify_calls(calls, want, run, cfgs, fail, case):
    calls = [c for c in calls if c[0] != "bjobs"]
    subs = [c for c in calls if c[0] == "bsub"]
    calls = [c for c in calls if c[0] != "bsub"]
    left = fail
    for w in want:
        if left is not None and left <= 0:
            break
        if w[0] in ("densities", "delta", "ist"):
            check(calls and calls[0][0] == w[0], f"expected {w[0]}, next is {calls[:1]}")
            calls = calls[1:]
        elif w[0] == "jobs":
            n = len(w[2]) if left is None else min(left, len(w[2]))
            got = [check_job_call(c, w[1], run, cfgs[w[1]].name) for c in calls[:n]]
            eq(len(set(got)), n, f"{w[1]} jobs which ran")
            check(set(got) <= set(w[2]), f"{w[1]} jobs which ran: {got}, asked for {w[2]}")
            eq({c[1] for c in calls[:n]}, {str(run / w[1] / g) for g in got}, "working directories")
            calls = calls[n:]
            left = None if left is None else left - n
        else:
            check(bool(calls), f"{w} never ran")
            prog, cwd, argv = calls[0]
            opts, pos = options(argv)
            calls = calls[1:]
            left = None if left is None else left - 1
            if w[0] == "fisher":
                i = argv.index("--rundir")
                eq((prog, argv[i + 1], argv[:i] + argv[i + 2:]), (MAIN["Fisher"], str(run), list(w[1])), "Fisher job")
            else:
                mod = script_module("evaluate_final_results")
                a = mod["program_options"]().parse_args(argv)
                eq((prog, a.input_rundirs, a.workdir, a.overwrite, a.execution), ("evaluate_final_results", [str(run)], run, case["over"], case["ex"]), "final results")
    eq(calls, [], "nothing else runs")
    for _, _, argv in subs:
        opts, _ = options(argv)
        i = argv.index("-n")
        fisher = "compute_fisher_matrix" in argv
        mem = str(case["mem"]) if not fisher else ("10000" if case["nsp"] > 24 else "4000")
        eq((argv[argv.index("-q") + 1], argv[argv.index("-M") + 1], argv[i + 1]), ("long", mem, str(case["cores"])), "resources asked for")


# ---------------------------------------------------------------- several forecasts
STEM = st.sampled_from(["wl_12_sp_bins", "wl_4_sp_bins", "ph_24_sp_bins", "opt", "my run", "it's", "a;b", "x_1.3.2_2021-03-07T19-23-56", "x_y_1.3.12_2021-03-07T19-23-56", "$x", "ph_wl"])


@st.composite
def orchestra(draw):
    def stems(alphabet, lo, hi):
        return draw(st.lists(alphabet, min_size=lo, max_size=hi, unique=True))
    plain = st.sampled_from(["std", "alt", "cut 1", "o'k", "1"])
    return {"fcfg": stems(st.sampled_from(["wl_12_sp_bins", "wl_4_sp_bins", "ph_24_sp_bins", "100_sp_bins_x"]) if draw(st.booleans()) else STEM, 1, 4), "fish": stems(plain, 1, 3), "cl": stems(plain, 1, 2), "pmm": stems(st.one_of(STEM, st.sampled_from(["PowerSpectrum_b", "old_PowerSpectrum"])), 0, 2),
            "leaf": draw(st.booleans()), "flags": draw(st.lists(st.sampled_from(["angular", "derivative", "fisher"]), min_size=1, unique=True)), "ext": draw(st.lists(st.sampled_from(["pmm_dir", "cl_dir", "der_dir"]), unique=True)),
            "ex": draw(st.sampled_from(["interactive", "batch", "interactive", "no"])), "q": draw(st.sampled_from(["long", "medium"])), "ncj": draw(st.integers(1, 9)), "mem": draw(st.integers(100, 20000)), "i": draw(st.one_of(st.none(), NAMECH)),
            "af": draw(st.lists(st.sampled_from(["overwrite_results", "test", "verbose", "keep_cl_variations"]), unique=True)), "given": draw(st.sampled_from(["config", "list", "txt"])), "rds": draw(st.one_of(st.none(), st.none(), st.lists(STEM, min_size=1, max_size=3, unique=True))),
            "rtxt": draw(st.booleans()), "where": draw(NAMECH), "ini": draw(st.booleans()), "stray": draw(st.booleans()), "pretxt": draw(st.booleans()), "bad": draw(st.sampled_from([None] * 8 + ["no task", "no execution", "no powerspectra", "empty", "two"]))}


HOOK = """#!/bin/bash
while [ $# -gt 0 ]; do [ "$1" = -id ] && mkdir -p "${2}_%s_2021-03-07T19-23-5$(( $(cat "$STUB_DIR/count") %% 10 ))" "${2}_more_%s_2021-03-07T19-23-00"; shift; done
echo warning >&2
exit $(( $(cat "$STUB_DIR/count") %% 3 ))
""" % (VERSION, VERSION)


@CHECK.prop(orchestra(), quick=40, thorough=600, rule="several combinations of configurations, or several existing run folders")
def orchestrated(case, ctx):
    import datetime
    tmp = ctx.tmp()
    work = tmp / case["where"]
    work.mkdir()
    os.chdir(work)
    mod = script_module("orchestrate_run")
    job = script_module("job_submitter")
    inp = tmp / "in put"
    inp.mkdir()
    with Stubs(ctx) as stubs:
        for k in ("powerspectrum", "angular", "derivative", "fisher", "results"):
            (inp / f"{k}.json").write_text(k)
        argv = ["--create_config"]
        for k in ("powerspectrum", "derivative", "results"):
            argv += [f"--{k}_config", str(inp / f"{k}.json")]
        parser = mod["program_options"]()
        mod["main"](parser.parse_args(argv))
        eq(stubs.calls(), [], "nothing runs while the configuration is made")
        eq(sorted(p.name for p in (work / "config").iterdir()), sorted(["fcfg", "pmm_cfg", "cl_cfg", "der_cfg", "fish_cfg", "res_cfg", "external_dirs.json"]), "configuration folders")
        from seyfert.utils.filesystem_utils import config_files_dir
        for sub, src in {"pmm_cfg": inp / "powerspectrum.json", "der_cfg": inp / "derivative.json", "res_cfg": inp / "results.json", "cl_cfg": config_files_dir() / "angular_config.json", "fish_cfg": config_files_dir() / "fisher_config.json"}.items():
            eq({p.name: p.read_bytes() for p in (work / "config" / sub).iterdir()}, {src.name: src.read_bytes()}, f"{sub} files")
        eq(json.loads((work / "config/external_dirs.json").read_text()), {"pmm_dir": None, "cl_dir": None, "der_dir": None}, "external directories")
        for sub, stems in {"cl_cfg": case["cl"], "fish_cfg": case["fish"]}.items():
            for f in (work / "config" / sub).iterdir():
                f.unlink()
            for s in stems:
                (work / "config" / sub / f"{s}.json").write_text(s)
        if case["stray"]:
            for sub in ("fcfg", "cl_cfg", "fish_cfg", "der_cfg"):
                (work / "config" / sub / "README.txt").write_text("x")
        fdir = work / "config/fcfg" if case["given"] == "config" else inp
        fcfgs = {}
        for s in case["fcfg"]:
            fcfgs[fdir / f"{s}.json"] = s
            (fdir / f"{s}.json").write_text("{}")
        ext = {k: (str(tmp / "ext" / k) if k in case["ext"] else None) for k in ("pmm_dir", "cl_dir", "der_dir")}
        angular = "angular" in case["flags"]
        pmms = {}
        for s in (case["pmm"] if angular else []):
            d = tmp / "pk" / s / ("PowerSpectrum" if case["leaf"] else "")
            d.mkdir(parents=True, exist_ok=True)
            pmms[d] = s
        if pmms:
            ext["pmm_dir"] = None
        (work / "config/external_dirs.json").write_text(json.dumps(ext))
        argv = [f"--{f}" for f in case["flags"]] + ["-ex", case["ex"], "-q", case["q"], "-ncj", str(case["ncj"]), "-mem", str(case["mem"])]
        if case["i"] is not None:
            argv.append(f"--input_data_dir={case['i']}")
        if case["ini"]:
            (tmp / "x y.ini").write_text("[config]\n")
            argv += ["-ini", str(tmp / "x y.ini")]
        if case["af"]:
            argv += ["-af", *case["af"]]
        if angular and pmms:
            if len(pmms) == 1 and not case["pretxt"]:
                argv += ["-pmms", str(next(iter(pmms)))]
            else:
                (tmp / "p.txt").write_text("".join(f" {d} \n\n" for d in pmms))
                argv += ["-pmms", str(tmp / "p.txt")]
        if case["given"] == "list":
            argv += ["-fcfgs", *map(str, fcfgs)]
        elif case["given"] == "txt":
            (inp / "l.txt").write_text("\n".join(map(str, fcfgs)))
            argv += ["-fcfgs", str(inp / "l.txt")]
        rds = None
        if case["rds"] is not None:
            rds = []
            for s in case["rds"]:
                r = tmp / "runs" / s
                r.mkdir(parents=True)
                (r / "input_files_dict.json").write_text(json.dumps({"forecast": f"in/{s}.json", "PowerSpectrum": "in/p k.json", "Angular": "in/c.json", "Derivative": "in/d.json", "Fisher": "in/f.json"}))
                rds.append(r)
            if case["rtxt"]:
                (tmp / "r.txt").write_text("\n".join(map(str, rds)) + "\n\n")
            argv += ["-rds", *([str(tmp / "r.txt")] if case["rtxt"] else map(str, rds))]
        bad = case["bad"]
        if bad == "no task":
            argv = [a for a in argv if a not in ("--angular", "--derivative", "--fisher")]
        elif bad == "no execution":
            i = argv.index("-ex")
            argv = argv[:i] + argv[i + 2:]
        elif bad == "empty":
            (work / "config/der_cfg/derivative.json").unlink()
        elif bad == "two":
            (work / "config/pmm_cfg/other.json").write_text("")
        ctx.label(bad or ("existing runs" if rds else "new runs"), case["ex"])
        (Path.home() / "spectrophoto/input_data").mkdir(parents=True, exist_ok=True)
        stubs.reset(hook=HOOK)
        (stubs.dir / "hook").chmod(0o755)
        a = parser.parse_args(argv)
        before = {p.name for p in work.iterdir()}
        if bad not in (None, "no powerspectra") or (angular and not pmms):
            raises(Exception, lambda: mod["main"](a), f"{bad or 'no power spectra'}")
            eq(stubs.calls(), [], f"nothing runs: {bad or 'no power spectra'}")
            return
        mod["main"](a)
        calls = stubs.calls()
        eq({c[0] for c in calls} - {"job_submitter"}, set(), "programs")
        eq({c[1] for c in calls} - {str(work.resolve())}, set(), "working directories")
        data = case["i"] if case["i"] is not None else str(fsu.default_seyfert_input_data_dir())
        got = []
        for _, _, av in calls:
            if f"-i {data}" != "-i -d":
                o = job["specific_program_options"]().parse_args(av)
            else:
                i = av.index("-i")
                o = job["specific_program_options"]().parse_args(av[:i] + [f"--input_data_dir={av[i + 1]}"] + av[i + 2:])
            eq((o.execution, o.queue, o.n_cores_per_job, o.memory, o.input_data_dir), (case["ex"], case["q"], case["ncj"], case["mem"], data), "options of a run")
            eq({f for f in ("powerspectrum", "angular", "derivative", "fisher") if getattr(o, f)}, set(case["flags"]), "tasks of a run")
            eq({f for f in ("overwrite_results", "test", "verbose", "keep_cl_variations") if getattr(o, f)}, set(case["af"]), "flags of a run")
            eq(o.ini_file, tmp / "x y.ini" if case["ini"] else None, "ini file")
            got.append(o)
        if rds is not None:
            ctx.nontrivial(len(rds) > 1)
            eq([o.rundir for o in got], rds, "run folders which are run again")
            for o, r in zip(got, rds):
                eq([Path(x) for x in (o.forecast_config, o.powerspectrum_config, o.angular_config, o.derivative_config, o.fisher_config)], [r / f"in/{r.name}.json", r / "in/p k.json", r / "in/c.json", r / "in/d.json", r / "in/f.json"], "configurations of the run")
            return
        combos = list(itertools.product(fcfgs, case["fish"], case["cl"], pmms or [None]))
        ctx.nontrivial(len(combos) > 2)
        if case["ex"] == "no":
            eq(calls, [], "nothing runs")
            return
        keys = [(Path(o.forecast_config), o.fisher_config.stem, o.angular_config.stem, o.powerspectrum_dir if pmms else None) for o in got]
        eq(len(set(keys)), len(keys), "combinations run once")
        eq(set(keys), set(combos), "combinations of configurations which are run")
        nsp = [int(m.group(1)) for m in (re.search(r"([0-9]+)_sp_bins", k[0].name) for k in keys) if m]
        if len(nsp) == len(keys):
            eq(nsp, sorted(nsp), "order of the runs")
        def strip(n):
            return re.sub(r"_1\.3\.\d+_2021-03-07T19-23-56$", "", n)
        for o, (f, fish, cl, pmm) in zip(got, keys):
            eq((o.fisher_config, o.angular_config), (work.resolve() / f"config/fish_cfg/{fish}.json", work.resolve() / f"config/cl_cfg/{cl}.json"), "configurations")
            eq((o.powerspectrum_config.name, o.derivative_config.name, o.results_config.name), ("powerspectrum.json", "derivative.json", "results.json"), "configurations")
            check(all(x.parent.parent == work.resolve() / "config" for x in (o.powerspectrum_config, o.derivative_config, o.results_config)), "configurations")
            eq(o.run_id, "_".join([strip(fcfgs[f])] + ([fish] if len(case["fish"]) > 1 else []) + ([cl] if len(case["cl"]) > 1 else []) + ([strip(pmms[pmm])] if pmm is not None else ["pmm_dir"] if ext["pmm_dir"] else [])), "identifier of the run")
            eq([str(x) if x is not None else None for x in (o.powerspectrum_dir if not pmms else None, o.angular_dir, o.derivative_dir)], [ext["pmm_dir"], ext["cl_dir"], ext["der_dir"]], "external directories")
        new = {p.name for p in work.iterdir()} - before
        (lst,) = [n for n in new if n.startswith("rundirs_")]
        eq(sorted(json.loads((work / lst).read_text())), sorted(str(p.resolve()) for p in work.iterdir() if re.search(r"_2021-03-07T19-23-5\d$", p.name)), "list of the run folders")


# ---------------------------------------------------------------- one process per forecast
@CHECK.prop(st.fixed_dictionaries({"runs": st.lists(st.tuples(STEM, st.integers(1, 60)), min_size=1, max_size=4, unique_by=lambda t: t[0]), "dirs": st.lists(st.sampled_from(["powerspectrum", "angular", "derivative", "fisher"]), unique=True),
                                   "where": NAMECH, "q": st.sampled_from(["long", "medium"]), "ncj": st.integers(1, 9), "mem": st.integers(100, 20000), "ext": NAMECH, "ex": st.sampled_from(["batch", "batch", "interactive", "no"]), "test": st.booleans()}),
            quick=40, thorough=500, rule="several forecasts are submitted")
def submitted(case, ctx):
    tmp = ctx.tmp()
    work = tmp / case["where"]
    work.mkdir()
    os.chdir(tmp)
    (tmp / "d.h5").touch()
    (tmp / "bias.h5").touch()
    mod = script_module("run_seyfert")
    ctx.nontrivial(len(case["runs"]) > 1 and case["ex"] != "no")
    ctx.label(case["ex"])
    files = {}
    for stem, nsp in case["runs"]:
        f = tmp / "in put" / f"{stem}.json"
        f.parent.mkdir(exist_ok=True)
        fj = forecast_json({"PhotometricGalaxy": {"density_file": "d.h5"}})
        fj["synthetic_opts"]["n_sp_bins"] = nsp
        f.write_text(json.dumps(fj))
        files[f] = nsp
    args = ["-wd", str(work), "-ex", case["ex"], "-q", case["q"], "-ncj", str(case["ncj"]), "-mem", str(case["mem"]), "-i", str(tmp), "-fcfg", *map(str, files)]
    for d in case["dirs"]:
        args += [f"--{d}_dir", str(tmp / case["ext"] / d)]
    if case["test"]:
        args.append("--test_batch")
    parser = mod["program_options"]()
    given = vars(parser.parse_args(args))
    done = []
    with Stubs(ctx) as stubs:
        old = seyfert_core.do_forecast
        seyfert_core.do_forecast = lambda a, logfile: done.append(dict(a))
        try:
            mod["main"](dict(given))
            first, done[:] = list(done), []
            calls = [c for c in stubs.calls() if c[0] == "bsub"]
            runs = []
            if case["ex"] == "batch":
                eq(first, [], "nothing runs on this machine")
                eq(len(calls), 0 if case["test"] else len(files), "submissions")
                for _, _, a in calls:
                    o = {k: a[a.index(k) + 1] for k in ("-q", "-M", "-n", "-e", "-o")}
                    i = a.index("run_seyfert")
                    b = parser.parse_args(a[i + 1:])
                    check(b.is_batch_job and b.execution == "interactive", "the job does the work itself")
                    nsp = files[b.forecast_config[0]]
                    mem = 10000 if nsp > 24 and case["mem"] < 10000 else case["mem"]
                    eq((o["-q"], o["-n"], o["-M"]), (case["q"], str(case["ncj"]), str(mem)), "resources asked for")
                    rs = [x for x in a[:i] if x.startswith("-R")]
                    eq([set(map(int, re.findall(r"mem[>=](\d+)", x))) for x in rs], [{mem}], "memory asked for")
                    eq((Path(o["-e"]).parent, Path(o["-o"]).parent), (b.workdir / "batch_logs/err", b.workdir / "batch_logs/out"), "logs")
                    for d in ("powerspectrum", "angular", "derivative", "fisher"):
                        eq((getattr(b, f"{d}_dir"), getattr(b, f"{d}_config")), (given[f"{d}_dir"], given[f"{d}_config"]), f"{d} folder and configuration")
                    n = len(done)
                    mod["main"](vars(b))
                    eq(len(done), n + 1, "forecasts of one job")
                    runs.append(done[-1])
            else:
                eq(calls, [], "nothing is submitted")
                runs = first
            want = [] if case["ex"] == "no" or (case["ex"] == "batch" and case["test"]) else list(files)
            eq(sorted(str(r["forecast_config"]) for r in runs), sorted(map(str, want)), "forecasts")
            eq(len({str(r["workdir"]) for r in runs}), len(want), "folders of the forecasts")
            nb = [re.search(r"([0-9]+)_sp_bins", Path(r["forecast_config"]).name) for r in runs]
            if all(nb):
                eq([int(m.group(1)) for m in nb], sorted(int(m.group(1)) for m in nb), "order of the forecasts")
            for r in runs:
                w = Path(r["workdir"])
                eq((w.parent, w.name.startswith(f"run_{Path(r['forecast_config']).stem}_{VERSION}_"), w.is_dir()), (work.resolve(), True, True), f"folder {w}")
                eq(r["input_data_dir"], tmp, "input data")
                for d in ("powerspectrum", "angular", "derivative", "fisher"):
                    eq((r[f"{d}_dir"], r[f"{d}_config"]), (given[f"{d}_dir"], given[f"{d}_config"]), f"{d} folder and configuration")
        finally:
            seyfert_core.do_forecast = old


# ---------------------------------------------------------------- final results of several runs
@CHECK.prop(st.fixed_dictionaries({"runs": st.lists(STEM, min_size=1, max_size=4, unique=True), "where": NAMECH, "ex": st.sampled_from(["batch", "batch", "interactive", "no"]), "q": st.sampled_from(["long", "medium"]),
                                   "ncj": st.integers(1, 9), "mem": st.integers(100, 20000), "out": st.sampled_from(["final_results", "my results", "o'k"]), "ow": st.booleans(), "nowait": st.booleans(), "txt": st.booleans(), "test": st.booleans()}),
            quick=40, thorough=500, rule="results of several runs")
def results(case, ctx):
    tmp = ctx.tmp()
    os.chdir(tmp)
    mod = script_module("evaluate_final_results")
    runs = [tmp / case["where"] / r for r in case["runs"]]
    for r in runs:
        r.mkdir(parents=True)
    ctx.nontrivial(len(runs) > 1 and case["ex"] != "no")
    ctx.label(case["ex"])
    parser = mod["program_options"]()
    (tmp / "l.txt").write_text("\n".join(map(str, runs)) + "\n")
    flags = (["-ow"] if case["ow"] else []) + (["-nowait"] if case["nowait"] else []) + (["-t"] if case["test"] else [])
    argv = ["-o", case["out"], "-ex", case["ex"], "-q", case["q"], "-ncj", str(case["ncj"]), "-mem", str(case["mem"]), "-wd", str(tmp), "-i", *([str(tmp / "l.txt")] if case["txt"] else map(str, runs)), *flags]
    done = []
    frc = sys.modules["seyfert.fisher.final_results_core"]
    with Stubs(ctx) as stubs:
        old = frc.create_final_results
        frc.create_final_results = lambda rundir, outdir_name, overwrite: done.append((Path(rundir), outdir_name, overwrite))
        try:
            if case["ex"] == "batch" and case["test"]:
                argv.append("-nowait") if not case["nowait"] else None
            mod["main"](parser.parse_args(argv))
            calls = stubs.calls()
            subs = [a for n, _, a in calls if n == "bsub"]
            if case["ex"] == "batch" and not case["test"]:
                eq(done, [], "nothing runs on this machine")
                eq(len(subs), len(runs), "submissions")
                for a in subs:
                    eq(tuple(a[a.index(k) + 1] for k in ("-q", "-M", "-n")), (case["q"], str(case["mem"]), str(case["ncj"])), "resources asked for")
                    i = a.index("evaluate_final_results")
                    b = parser.parse_args(a[i + 1:])
                    eq(b.execution, "interactive", "the job does the work itself")
                    n = len(done)
                    mod["main"](b)
                    eq(len(done), n + 1, "results of one job")
                    eq({Path(a[a.index(k) + 1]).parent for k in ("-e", "-o")}, {done[-1][0] / case["out"] / "logs"}, "logs")
                asked = [set(x for x in a if not x.startswith("-")) for n, _, a in calls if n == "bjobs"]
                eq(asked, [] if case["nowait"] else [{str(1001 + k) for k in range(len(runs))}], "jobs which are waited for")
                want = runs
            else:
                eq(calls, [], "nothing is submitted")
                want = runs if case["ex"] == "interactive" else []
            eq(sorted(done), sorted((r, case["out"], case["ow"]) for r in want), "results which are evaluated")
        finally:
            frc.create_final_results = old

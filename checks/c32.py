"""C32: plots show the results they are made from."""
import itertools
from types import SimpleNamespace
import matplotlib
matplotlib.use("Agg")
import matplotlib.pyplot as plt
from matplotlib import patches
from matplotlib.collections import PolyCollection, QuadMesh
from scipy import stats
from pbt import *
import pandas as pd
import fisherlib as fl
import coslib as cl
from seyfert import plot_utils
from seyfert.cosmology import parameter as par
from seyfert.cosmology.weight_functions import weight_function_for_probe
from seyfert.fisher.fisher_analysis import FisherAnalysis
from seyfert.fisher.fisher_matrix import FisherMatrix
from seyfert.fisher.fisher_plot import FisherPlotter
from seyfert.fisher.fisher_results import FisherResultsCollector
from seyfert.notebook_helpers import barplots, fom_gain_plots
from seyfert.plot_utils import cl_plot, misc
from seyfert.utils import filesystem_utils as fsu
from seyfert.utils.comparison_utils import ClDiff
from seyfert.utils.tex_utils import TeXTranslator

CHECK = Check("C32", ["Figures are inspected as drawn objects (Matplotlib's Agg canvas); the typeset pages are not, and no LaTeX is installed.",
                      "Contours of a confidence level p use the quantile of one parameter at p, as C18 states them.", "Fisher matrices are positive definite and well conditioned."])
NAMES = fl.NAMES + ["[WL] + [GCsp]", "[WL+GCph+XC(WL,GCph)] + [GCsp(Pk)]"]
MANY = NAMES + ["[WL] + [GCph]", "[GCph] + [GCsp]", "[WL] + [GCsp(Pk)]", "[GCph] + [GCsp(Pk)]"]
TEX = {"Omm": r"\Omega_m", "Omb": r"\Omega_b", "w0": "w_0", "wa": "w_a", "h": "h", "ns": "n_s", "sigma8": r"\sigma_8", "gamma": r"\gamma", "aIA": r"\mathcal{A}_{\rm IA}", "etaIA": r"\eta_{\rm IA}",
       **{f"bg{t}{i}": r"b^{\mathrm{%s}}_{%d}" % (t, i) for t in ("ph", "sp") for i in range(12)}, "FoM": r"\mathrm{FoM}"}
DEFAULT = json.loads((fsu.config_files_dir() / "results_config.json").read_text())["plot_settings"]


@contextlib.contextmanager
def figures():
    plt.close("all")
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            yield
    finally:
        plt.close("all")
        plt.rcdefaults()


def tex_fisher(name):
    return "$%s$" % TeXTranslator().translateToTeX(name)


def quantile(level):
    return stats.norm.ppf((1 + level) / 2)


@st.composite
def matrices(draw, n=(1, 3), nc=(2, 4), pool=NAMES):
    cos = draw(st.lists(st.sampled_from(fl.COSMO), min_size=nc[0], max_size=nc[1], unique=True))
    mats = []
    for name in draw(st.lists(st.sampled_from(pool), min_size=n[0], max_size=n[1], unique=True)):
        ps = list(draw(st.permutations(cos + draw(st.lists(st.sampled_from(fl.NUIS), max_size=2, unique=True)))))
        mats.append({"name": name, "params": ps, "ints": draw(vec(len(ps) ** 2, st.integers(-4, 4))), "scale": draw(st.sampled_from([1.0, 4.0, 0.25, 1000.0])), "posdef": True})
    return {"mats": mats, "fids": {p: draw(st.sampled_from([0.0, -1.0, 0.32, 1.0, 0.05])) for p in cos}}


def analysis(c, name="test"):
    an = FisherAnalysis(analysis_name=name, cosmo_pars_fiducial=dict(c["fids"]), fisher_matrices=[fl.build(m) for m in c["mats"]])
    an.prepareFisherMatrices()
    an.evaluateMarginalizedErrors()
    return an, {m["name"]: fl.Model.of(m) for m in c["mats"]}


def merge(base, over):
    out = dict(base)
    for k, v in over.items():
        out[k] = merge(base[k], v) if isinstance(v, dict) and k != "cl_alpha_dict" else v
    return out


@st.composite
def triangle_case(draw):
    c = draw(st.one_of(matrices(), matrices(), matrices(), matrices(n=(11, 13), nc=(2, 2), pool=MANY)))
    pars = sorted(c["fids"])
    over = {}
    if draw(st.booleans()):
        levels = lambda: {str(x): draw(st.sampled_from([0.2, 0.35, 0.5, 0.8])) for x in draw(st.lists(st.sampled_from([0.5, 0.68, 0.9, 0.95]), min_size=1, max_size=2, unique=True))}
        over["graphics"] = {"cl_alpha_dict": {"gauss": levels(), "ellipse": levels()}, "color_map": draw(st.sampled_from(["viridis", "rainbow", "jet"]))}
    if draw(st.booleans()):
        over["axes"] = {"ticks": {"number": draw(st.integers(2, 5)), "digits": draw(st.integers(1, 4))}}
    if draw(st.booleans()):
        over["legend"] = {"fontsize": draw(st.integers(6, 20)), "title_fontsize": draw(st.integers(6, 20))}
    names = [m["name"] for m in c["mats"]]
    return {**c, "pars": draw(st.one_of(st.just("all"), st.lists(st.sampled_from(pars), min_size=2, max_size=3, unique=True))), "over": over, "how": draw(st.sampled_from(["default", "file", "dict", "default+dict", "file+dict"])),
            "fixed_order": draw(st.one_of(st.none(), st.permutations(names))), "order": draw(st.one_of(st.none(), st.lists(st.sampled_from(names), min_size=1, unique=True))),
            "ranges": draw(st.one_of(st.none(), st.fixed_dictionaries({p: st.tuples(nice(-3, -0.1, 50), nice(0.1, 3, 50)).map(list) for p in pars}))),
            "save": draw(st.booleans()), "legend": draw(st.booleans()), "text": draw(st.one_of(st.none(), st.tuples(nice(0, 1, 10), nice(0, 1, 10)))), "overwrite": draw(st.booleans())}


def colour(x):
    return tuple(np.round(matplotlib.colors.to_rgb(x), 6))


def check_ellipses(ax, want, what):
    """want: (colour, centre, covariance, level, alpha) of each filled contour; each has an outline, too"""
    drawn = [a for a in ax.get_children() if isinstance(a, patches.Ellipse)]
    eq(len(drawn), 2 * len(want), f"number of contours {what}")
    t = np.linspace(0, 2 * np.pi, 24, endpoint=False)

    def fits(e, col, centre, cov, level):
        p = e.get_patch_transform().transform(np.column_stack([np.cos(t), np.sin(t)])) - centre
        d = np.einsum("ni,ij,nj->n", p, np.linalg.inv(cov), p) / quantile(level) ** 2
        return colour(e.get_edgecolor()[:3]) == col and np.max(np.abs(d - 1)) < 1e-5
    for fill in (True, False):
        left = [e for e in drawn if e.get_fill() == fill]
        for col, centre, cov, level, alpha in want:
            (hit, *_) = [e for e in left if fits(e, col, centre, cov, level) and (not fill or (e.get_alpha() == alpha and colour(e.get_facecolor()[:3]) == col))] or [None]
            check(hit is not None, f"no {'filled' if fill else 'outlined'} contour at {level} with centre {centre} and covariance {cov.tolist()} {what}")
            left.remove(hit)


def check_gaussians(ax, want, lim, what):
    """want: (colour, mean, sigma, {level: alpha})"""
    lines = [(colour(x.get_color()), *x.get_data()) for x in ax.lines]
    eq({x[0] for x in lines}, {w[0] for w in want}, f"colours of the curves {what}")
    fills = [a for a in ax.collections if isinstance(a, PolyCollection)]
    eq(len(fills), sum(len(w[3]) for w in want), f"number of bands {what}")
    for col, mean, sigma, levels in want:
        for c, x, y in lines:
            if c == col:
                close([x[0], x[-1]], lim, f"range of the curve {what}", rtol=1e-9, atol=1e-12)
                check(np.all(np.diff(x) > 0) and len(x) >= 50, f"the curve is drawn from left to right {what}")
                close(y, np.exp(-(x - mean) ** 2 / 2 / sigma ** 2), f"distribution {what}", rtol=1e-5, atol=1e-9)
        left = [f for f in fills if colour(f.get_facecolor()[0][:3]) == col]
        step = (lim[1] - lim[0]) / 50
        for level, alpha in sorted(levels.items()):
            lo, hi = max(lim[0], mean - quantile(level) * sigma), min(lim[1], mean + quantile(level) * sigma)
            extent = lambda f: (min(p.vertices[:, 0].min() for p in f.get_paths()), max(p.vertices[:, 0].max() for p in f.get_paths())) if f.get_paths() else None

            def fits(f):
                e = extent(f)
                if e is None:
                    return hi - lo <= step
                return lo - 1e-6 * sigma <= e[0] <= lo + step and hi - step <= e[1] <= hi + 1e-6 * sigma
            (hit, *_) = [f for f in left if f.get_alpha() == alpha and fits(f)] or [None]
            check(hit is not None, f"no band of level {level} between {lo} and {hi} {what}; bands: {[(f.get_alpha(), extent(f)) for f in left]}")
            left.remove(hit)


def check_triangle(fig, axes, pl, c, models, settings, order, ranges, pars):
    n = len(pars)
    eq(axes.shape, (n, n), "panels")
    names = pl.analysis.fishers_order
    cmap = matplotlib.colormaps[settings["graphics"]["color_map"]]
    cols = {f: colour(cmap(i / max(len(names) - 1, 1))[:3]) for i, f in enumerate(names)}
    gauss, ellipse = ({float(k): v for k, v in settings["graphics"]["cl_alpha_dict"][kind].items()} for kind in ("gauss", "ellipse"))
    shown = order if order is not None else names
    ticks = settings["axes"]["ticks"]
    for i in range(n):
        for j in range(n):
            ax, x, y = axes[i, j], pars[j], pars[i]
            what = f"in the panel of {x} and {y}"
            if i < j:
                check(not ax.axison and not ax.lines and not ax.patches and not ax.collections, f"empty panel {what}")
                continue
            close(ax.get_xlim(), ranges[x], f"horizontal range {what}", rtol=1e-9, atol=1e-12)
            close(ax.get_xticks(), np.linspace(*ranges[x], ticks["number"]), f"horizontal ticks {what}", rtol=1e-9, atol=1e-12)
            text = list(ax.xaxis.get_major_formatter().format_ticks(ax.get_xticks()))
            eq(text, [f"%.{ticks['digits']}g" % v for v in np.linspace(*ranges[x], ticks["number"])], f"horizontal labels {what}")
            eq(all(t.label1.get_visible() for t in ax.xaxis.get_major_ticks()), i == n - 1, f"labels are shown at the bottom of the figure only, {what}")
            if i == n - 1:
                eq(ax.get_xlabel(), f"${TEX[x]}$", f"horizontal label {what}")
            if i == j:
                check_gaussians(ax, [(cols[f], c["fids"][x], np.sqrt(models[f].cov(x, x)), gauss) for f in shown], ranges[x], what)
                continue
            close(ax.get_ylim(), ranges[y], f"vertical range {what}", rtol=1e-9, atol=1e-12)
            close(ax.get_yticks(), np.linspace(*ranges[y], ticks["number"]), f"vertical ticks {what}", rtol=1e-9, atol=1e-12)
            eq(all(t.label1.get_visible() for t in ax.yaxis.get_major_ticks()), j == 0, f"labels are shown on the left of the figure only, {what}")
            if j == 0:
                eq(ax.get_ylabel(), f"${TEX[y]}$", f"vertical label {what}")
            want = []
            for f, (level, alpha) in itertools.product(shown, ellipse.items()):
                m = models[f]
                want.append((cols[f], (c["fids"][x], c["fids"][y]), np.array([[m.cov(x, x), m.cov(x, y)], [m.cov(y, x), m.cov(y, y)]]), level, alpha))
            check_ellipses(ax, want, what)
    return cols, shown


def check_legend(fig, cols, shown, settings, title):
    (legend,) = fig.legends
    eq([t.get_text() for t in legend.get_texts()], [tex_fisher(f) for f in shown], "names in the legend")
    eq([colour(h.get_facecolor()[:3]) for h in legend.legend_handles], [cols[f] for f in shown], "colours in the legend")
    eq(legend.get_title().get_text(), title, "title of the legend")
    eq({t.get_fontsize() for t in legend.get_texts()}, {settings["legend"]["fontsize"]}, "font of the legend")
    eq(legend.get_title().get_fontsize(), settings["legend"]["title_fontsize"], "font of the legend's title")


def default_ranges(c, models, pars):
    q = quantile(0.99)
    return {p: (np.mean([c["fids"][p] - q * np.sqrt(m.cov(p, p)) for m in models.values()]), np.mean([c["fids"][p] + q * np.sqrt(m.cov(p, p)) for m in models.values()])) for p in pars}


@CHECK.prop(triangle_case(), quick=25, thorough=700, rule="two or more matrices, not all parameters or given ranges")
def triangle(case, ctx):
    """confidence contours of all pairs of parameters, and distributions of each"""
    tmp = ctx.tmp()
    with figures():
        an, models = analysis(case, "an_1")
        if case["fixed_order"] is not None:
            an.fishers_order = list(case["fixed_order"])
        pl = FisherPlotter(fisher_analysis=an)
        pl.setParamsToPlot(case["pars"])
        pars = sorted(case["fids"]) if case["pars"] == "all" else case["pars"]
        settings, how = merge(DEFAULT, case["over"]), case["how"]
        file = tmp / "plot.json"
        if how == "default":
            settings = DEFAULT
            pl.setPlotConfig(use_default=True)
        elif how == "dict":
            pl.setPlotConfig(config_dict=settings)
        elif how == "default+dict":
            pl.setPlotConfig(use_default=True, config_dict={k: settings[k] for k in case["over"]})
        else:
            file.write_text(json.dumps({"plot_settings": DEFAULT if "dict" in how else settings}))
            pl.setPlotConfig(config_file=str(file) if how == "file" else file, **({"config_dict": {k: settings[k] for k in case["over"]}} if "dict" in how else {}))
        ranges = case["ranges"]
        if ranges is None:
            pl.setParametersPlotRanges()
            ranges = default_ranges(case, models, pars)
        else:
            (tmp / "in.json").write_text(json.dumps(ranges))
            pl.setParametersPlotRanges(ranges_file=tmp / "in.json")
        ctx.nontrivial(len(models) > 1 and (case["ranges"] is not None or case["pars"] != "all"))
        fig, axes = pl.makeTriangularPlot(order=case["order"], legend=case["legend"], outdir=tmp if case["save"] else None)
        eq([p.name for p in tmp.glob("*.pdf")], ["contour_an_1.pdf"] if case["save"] else [], "file of the plot")
        eq(plt.fignum_exists(fig.number), not case["save"], "the figure stays open unless it was written")
        cols, shown = check_triangle(fig, axes, pl, case, models, settings, case["order"], ranges, pars)
        eq(len(fig.legends), int(case["legend"]), "number of legends")
        if case["legend"]:
            check_legend(fig, cols, shown, settings, "an_1")
        x, y = settings["legend"]["bbox_to_anchor"]
        at = case["text"] or (x + settings["text_box"]["dx_leg"], y + settings["text_box"]["dy_leg"])
        pl.addInfoTextBox("some text", **({} if case["text"] is None else {"x": at[0], "y": at[1]}))
        t = fig.texts[-1]
        eq((t.get_text(), t.get_fontsize()), ("some text", settings["legend"]["fontsize"]), "text box and its font")
        close(t.get_position(), at, "place of the text box")
        # the ranges are written, and used again
        out, old = tmp / "ranges.json", json.dumps({f"p{i}": [0.0, 1.0] for i in range(40)}, indent=4)
        if case["overwrite"]:
            out.write_text(old)
        pl.writeParameterPlotRangesToFile(out)
        got = json.loads(out.read_text())
        eq(set(got), set(json.loads(old)) if case["overwrite"] else set(ranges), "an existing file of ranges is not overwritten unless asked")
        pl.writeParameterPlotRangesToFile(out, overwrite=True)
        got = json.loads(out.read_text())
        eq(set(got), set(ranges), "parameters of the file of ranges")
        for p in ranges:
            close(got[p], ranges[p], f"range of {p} in the file", rtol=1e-9, atol=1e-12)
        raises(ValueError, lambda: pl.setPlotConfig(), "settings of a plot from nowhere")
        raises(FileNotFoundError, lambda: pl.setParametersPlotRanges(ranges_file=tmp / "none.json"), "ranges from a missing file")
    raises(TypeError, lambda: FisherPlotter().setParamsToPlot(), "a plot without results")


def correlation(m):
    """of the cosmological parameters, the nuisance parameters being marginalized"""
    C, pars = m.inverse(), sorted(m.cosmo)
    k = [m.params.index(p) for p in pars]
    s = np.sqrt(np.diag(C))
    return (C / np.outer(s, s))[np.ix_(k, k)], pars


def check_heatmap(ax, values, labels, tex, what, tol=1e-9):
    """each cell of the map has the value of the parameters which its ticks show"""
    (mesh,) = [a for a in ax.collections if isinstance(a, QuadMesh)]
    arr = np.asarray(mesh.get_array(), dtype=float).reshape(values.shape)
    xy = mesh.get_coordinates()
    names = {}
    for axis, labs in (("x", ax.get_xticklabels()), ("y", ax.get_yticklabels())):
        at = getattr(ax, f"get_{axis}ticks")()
        names[axis] = {round(float(v), 6): t.get_text() for v, t in zip(at, labs)}
        check(len(names[axis]) > 0, f"labels {what}")
    back = {tex(p): p for p in labels}
    for i in range(arr.shape[0]):
        for j in range(arr.shape[1]):
            cx, cy = xy[i:i + 2, j:j + 2, 0].mean(), xy[i:i + 2, j:j + 2, 1].mean()
            if round(cx, 6) in names["x"] and round(cy, 6) in names["y"]:
                a, b = back[names["y"][round(cy, 6)]], back[names["x"][round(cx, 6)]]
                close(arr[i, j], values[labels.index(a), labels.index(b)], f"cell of {a} and {b} {what}", rtol=tol, atol=tol)
    return mesh


@CHECK.prop(st.fixed_dictionaries({"m": matrices(n=(1, 2)), "close": st.booleans(), "save": st.booleans()}), quick=20, thorough=500, rule="two matrices with nuisance parameters")
def correlations(case, ctx):
    """maps of the correlation matrices"""
    tmp = ctx.tmp()
    with figures():
        an, models = analysis(case["m"], "an")
        ctx.nontrivial(len(models) > 1 and all(m.nuis for m in models.values()))
        pl = FisherPlotter(fisher_analysis=an)
        for f, m in models.items():
            fig, ax = pl.makeSingleCorrelationPlot(f)
            corr, pars = correlation(m)
            mesh = check_heatmap(ax, corr, pars, lambda p: f"${TEX[p]}$", f"of {f}", 1e-6)
            eq(mesh.get_clim(), (-1.0, 1.0), "range of the colours of correlations")
            eq(ax.get_title(), tex_fisher(f), "title")
            check(ax.get_xlim()[0] < ax.get_xlim()[1] and ax.get_ylim()[0] < ax.get_ylim()[1], "orientation of the map")
        plt.close("all")
        out = tmp / "out"
        out.mkdir()
        pl.makeAllCorrelationPlots(outdir=out if case["save"] else None, close_fig=case["close"])
        eq({p.name for p in out.iterdir()}, {f"correlation_an_{f}.pdf" for f in models} if case["save"] else set(), "files of the correlations")
        eq(len(plt.get_fignums()), 0 if case["save"] and case["close"] else len(models), "figures left open")


@st.composite
def collector_case(draw):
    c = draw(matrices(n=(1, 3), nc=(3, 5), pool=fl.NAMES))
    pars = sorted(c["fids"])
    cosmologies = {}
    for name in draw(st.lists(st.sampled_from(["LCDM", "w0_wa_CDM", "other_CDM"]), min_size=1, max_size=2, unique=True)):
        sel = draw(st.lists(st.sampled_from(pars), min_size=2, unique=True))
        cosmologies[name] = {"present": draw(st.sampled_from(["true", "True", "true", "false"])), "pars": sel,
                             "pars_to_plot": draw(st.one_of(st.just("all"), st.lists(st.sampled_from(sel), min_size=2, max_size=3, unique=True)))}
    names = [m["name"] for m in c["mats"]]
    addends = draw(st.one_of(st.just([]), st.lists(st.lists(st.sampled_from(names), min_size=1, max_size=3), min_size=1, max_size=3, unique_by=tuple)))
    return {**c, "cosmologies": cosmologies, "addends": addends, "plots": draw(st.booleans()), "name": draw(st.sampled_from([None, "x", "run_1", "a_correlation"])),
            "ranges": draw(st.booleans()), "digits": draw(st.integers(1, 4)), "missing": draw(st.booleans())}


@CHECK.prop(collector_case(), quick=12, thorough=300, rule="a sum of matrices, or some parameters fixed, in a cosmology with plots")
def collector(case, ctx):
    """tables, matrices, correlations and plots of each cosmology written and loaded"""
    tmp = ctx.tmp()
    base = {m["name"]: fl.Model.of(m) for m in case["mats"]}
    (tmp / "fishers").mkdir()
    for m in case["mats"]:
        fl.build(m).writeToFile(outdir=tmp / "fishers")
    settings = merge(DEFAULT, {"axes": {"ticks": {"digits": case["digits"]}}})
    (tmp / "cfg.json").write_text(json.dumps({"plot_settings": settings, "fishers_addends_list": case["addends"], "cosmologies": case["cosmologies"]}))
    ranges = {p: (-1.0 - i, 2.0 + i) for i, p in enumerate(sorted(case["fids"]))}
    (tmp / "ranges.json").write_text(json.dumps(ranges))
    pp = par.PhysicalParametersCollection(data_dict={p: par.PhysicalParameter.createCosmologicalParameter(name=p, fiducial=v, is_free_parameter=True) for p, v in case["fids"].items()},
                                          base_stem_disps=np.array([0.01]), is_universe_flat=True)
    present = {k: v for k, v in case["cosmologies"].items() if v["present"].lower() == "true"}
    with figures():
        make = lambda: FisherResultsCollector(phys_pars=pp, analysis_name=case["name"], fishers_dir=tmp / "fishers", results_config_file=tmp / "cfg.json", do_plots=case["plots"],
                                              plot_ranges_file=tmp / "ranges.json" if case["ranges"] else None)
        rc = make()
        rc.setUp()
        eq(set(rc.analysis_dict), set(present), "cosmologies")
        rc.writeResultsAndDoPlots(tmp / "out")
        name = case["name"] or "test_analysis"
        eq({p.name for p in (tmp / "out").iterdir()}, set(present), "folders")
        want = {}
        for cosmology, d in present.items():
            models = {}
            for f, m in base.items():
                models[f] = m.copy()
                models[f].fix(sorted(m.cosmo - set(d["pars"])))
            if case["addends"]:
                sums = {}
                for a in case["addends"]:
                    s = models[a[0]].copy()
                    for x in a[1:]:
                        s = s.combine(models[x], 1)
                    s.name = "+".join(a)
                    sums[s.name] = s
                models = sums
            want[cosmology] = models
            ctx.nontrivial(case["plots"] and (any(len(a) > 1 for a in case["addends"]) or len(d["pars"]) < len(case["fids"])))
            root = tmp / "out" / cosmology
            files = {"errors": {f"{k}_{name}.{e}" for k in ("marginalized_errors", "relative_marginalized_errors") for e in ("csv", "xlsx")},
                     "correlations": {f"{name}_correlation_{f}.csv" for f in models},
                     "plots": {f"contour_{name}.pdf", "plot_ranges.json"} | {f"correlation_{name}_{f}.pdf" for f in models} if case["plots"] else set()}
            for k, v in files.items():
                eq({p.name for p in (root / k).iterdir()}, v, f"files of {k}")
            pars = sorted(d["pars"]) if d["pars_to_plot"] == "all" else d["pars_to_plot"]
            if case["plots"]:
                pl = rc.plotters_dict[cosmology]
                rr = ranges if case["ranges"] else default_ranges(case, models, pars)
                got = json.loads((root / "plots" / "plot_ranges.json").read_text())
                eq(set(got), set(rr), "parameters whose ranges are written")
                for p in got:
                    close(got[p], rr[p], f"range of {p}", rtol=1e-6, atol=1e-9)
                check_triangle(pl.figure, pl.axes, pl, case, models, settings, None, rr, pars)
        back = FisherResultsCollector()
        back.loadFromResultsDir(tmp / "out")
        eq(set(back.analysis_dict), set(present), "cosmologies loaded")
        for cosmology, models in want.items():
            for which, res in (("collected", rc), ("loaded", back)):
                what = f"{which} for {cosmology}"
                an = res.analysis_dict[cosmology]
                eq(set(an.fisher_matrices), set(models), f"matrices {what}")
                for f, m in models.items():
                    named = m.copy()
                    named.name = m.name if which == "loaded" or f in base else " + ".join(next(a for a in case["addends"] if "+".join(a) == f))
                    fl.compare(an.fisher_matrices[f], named, f"{f} {what}", tol=1e-9)
                    want_corr, pars = correlation(m)
                    corr = an.fisher_matrices[f].correlation
                    eq((set(corr.index), set(corr.columns)), (set(pars),) * 2, f"parameters of the correlations of {f} {what}")
                    close(corr.loc[pars, pars].to_numpy(), want_corr, f"correlations of {f} {what}", rtol=1e-6, atol=1e-9)
                    for p in m.cosmo:
                        e = np.sqrt(m.cov(p, p))
                        close(res.marg_errs[cosmology].loc[f, p], e, f"error on {p} from {f} {what}", rtol=1e-6)
                        close(res.rel_marg_errs[cosmology].loc[f, p], e / abs(case["fids"][p] or 1), f"relative error on {p} from {f} {what}", rtol=1e-6)
        if case["missing"]:
            bad = {**case["cosmologies"], "bad": {"present": "true", "pars": ["mnu"], "pars_to_plot": "all"}}
            (tmp / "cfg.json").write_text(json.dumps({"plot_settings": settings, "fishers_addends_list": case["addends"], "cosmologies": bad}))
            raises(Exception, lambda: make().setUp(), "a cosmology with a parameter which was not forecast")


@st.composite
def grid_case(draw):
    n, m = draw(st.integers(1, 4)), draw(st.integers(1, 4))
    return {"n": n, "m": m, "nx": draw(st.integers(1, 6)), "seed": draw(st.integers(0, 10 ** 6)), "sets": draw(st.integers(1, 3)), "logx": draw(st.booleans()), "logy": draw(st.booleans()),
            "tri": draw(st.booleans()), "imin": draw(st.integers(0, 2)), "jmin": draw(st.integers(0, 2)), "xlabel": draw(st.sampled_from([None, "z"])), "labels": draw(st.booleans())}


def line_eq(line, x, y, what):
    same_bits(np.asarray(line.get_xdata(), dtype=float), np.asarray(x, dtype=float), f"abscissae {what}")
    same_bits(np.asarray(line.get_ydata(), dtype=float), np.asarray(y, dtype=float), f"ordinates {what}")


@CHECK.prop(grid_case(), quick=25, thorough=800, rule="a grid of at least two rows and columns, with several data sets")
def grids(case, ctx):
    """angular spectra and other functions of pairs of bins on a grid"""
    n, m = case["n"], case["n"] if case["tri"] else case["m"]
    x = np.cumsum(lcg(case["seed"], case["nx"], 0.1, 2))
    ctx.nontrivial(n > 1 and m > 1 and case["sets"] > 1)
    with figures():
        axes = None
        ys = [lcg(case["seed"] + s + 1, n * m * len(x), 0.1, 2).reshape(n, m, len(x)) for s in range(case["sets"])]
        if n > 1 and m > 1:
            for s, y in enumerate(ys):
                fig, axes = cl_plot.grid_plot(x, y, label=f"set {s}", axes=axes, logx=case["logx"], logy=case["logy"], triangular=case["tri"], xlabel=case["xlabel"], draw_idx_labels=case["labels"])
            for i in range(n):
                for j in range(m):
                    ax = axes[i, j]
                    if case["tri"] and i < j:
                        check(not ax.axison and not ax.lines, f"panel {i}, {j} is empty")
                        continue
                    eq([q.get_label() for q in ax.lines], [f"set {s}" for s in range(len(ys))], "curves of a panel")
                    for s, q in enumerate(ax.lines):
                        line_eq(q, x, ys[s][i, j], f"of set {s} in panel {i}, {j}")
                    eq((ax.get_xscale(), ax.get_yscale()), ("log" if case["logx"] else "linear", "log" if case["logy"] else "linear"), "scales")
                    if i == n - 1:
                        eq(ax.get_xlabel(), case["xlabel"] or "", "label")
                    text = {t.get_text() for t in ax.texts}
                    eq(text, set() if not case["labels"] else ({f"i = {i}"} if j == 0 else set()) | ({f"j = {j}"} if (i == j if case["tri"] else i == 0) else set()), f"indices shown in panel {i}, {j}")
            if not case["tri"] and n != m:
                raises(Exception, lambda: cl_plot.grid_plot(x, ys[0], triangular=True), "a triangular grid which is not square")
        raises(Exception, lambda: cl_plot.grid_plot(np.ones((2, 2)), ys[0]), "abscissae with two indices")
        raises(Exception, lambda: cl_plot.grid_plot(x, ys[0][0]), "ordinates with two indices")
        plt.close("all")
        # angular spectra: (multipole, i, j), each with its multipoles
        n = n + 1
        i0, j0 = min(case["imin"], n - 2), min(case["jmin"], n - 2)
        ells = [np.cumsum(lcg(case["seed"] + 50 + s, case["nx"] + s, 1, 5)) for s in range(case["sets"])]
        cls = [lcg(case["seed"] + 90 + s, len(ells[s]) * n * n, 0.1, 2).reshape(-1, n, n) for s in range(case["sets"])]
        fig, axes = cl_plot.cl_plot(ells, cls, [f"s{s}" for s in range(case["sets"])], i_min=i0, j_min=j0, i_max=n - 1, j_max=n - 1, logx=case["logx"], logy=case["logy"], figsize=(5, 5))
        for i in range(i0, n):
            for j in range(j0, n):
                ax = axes[i - i0, j - j0]
                if i < j:
                    check(not ax.axison and not ax.lines, f"panel {i}, {j} of the spectra is empty")
                    continue
                eq([q.get_label() for q in ax.lines], [f"s{s}" for s in range(case["sets"])], "curves of a panel of spectra")
                for s, q in enumerate(ax.lines):
                    line_eq(q, ells[s], cls[s][:, i, j], f"of spectrum {s} in panel {i}, {j}")
                eq((ax.get_xscale(), ax.get_yscale()), ("log" if case["logx"] else "linear", "log" if case["logy"] else "linear"), "scales")
        for args in ((np.ones(3), cls, ["a"]), (ells, cls[0], ["a"]), (ells, cls, "a")):
            raises(TypeError, lambda: cl_plot.cl_plot(*args), "spectra which are not listed")


@st.composite
def table_case(draw):
    fishers = draw(st.lists(st.sampled_from(NAMES), min_size=2, max_size=4, unique=True))
    bins = draw(st.lists(st.sampled_from([4, 12, 24, 40]), min_size=2, max_size=4, unique=True))
    pars = draw(st.lists(st.sampled_from(["Omm", "Omb", "w0", "wa", "h", "ns", "sigma8"]), min_size=1, max_size=4, unique=True))
    log = draw(st.booleans())
    return {"fishers": fishers, "bins": bins, "pars": pars, "seed": draw(st.integers(0, 10 ** 6)), "sel": draw(st.lists(st.sampled_from(fishers), min_size=1, unique=True)), "tex": draw(st.booleans()),
            "legend": draw(st.booleans()), "log": log, "title": draw(st.sampled_from([None, "some title"])), "loss": 0 if log else draw(st.sampled_from([0, 30]))}


def check_bars(ax, case, tab, n_bins, what, tex=True, labels_of=None):
    cols = case["pars"] + ["FoM"]
    top = max(tab[f, n_bins]["FoM"] for f in case["sel"])
    label = {(f"${TEX[p]}$" if tex else p): p for p in case["pars"]}
    label[r"$\mathrm{FoM}/\mathrm{FoM_{max}}$" if tex else "FoM"] = "FoM"
    at = {round(float(y), 6): label[t.get_text()] for y, t in zip((labels_of or ax).get_yticks(), (labels_of or ax).get_yticklabels())}
    eq(set(at.values()), set(cols), f"quantities {what}")
    got = {}
    for cont in ax.containers:
        for r in cont:
            y = min(at, key=lambda v: abs(v - r.get_y() - r.get_height() / 2))
            got[cont.get_label(), at[y]] = r.get_width()
    eq(set(got), {(f, p) for f in case["sel"] for p in cols}, f"bars {what}")
    for (f, p), v in got.items():
        close(v, tab[f, n_bins][p] / (top if p == "FoM" else 1), f"bar of {p} from {f} {what}", rtol=1e-12)
    check(any(str(n_bins) in t.get_text() for t in ax.texts), f"number of bins {what}")
    eq(ax.get_xscale(), "log", f"scale {what}")


@CHECK.prop(table_case(), quick=20, thorough=500, rule="a selection of several matrices")
def bars(case, ctx):
    """bars of the relative errors, and gains of figure of merit as a function of the number of bins"""
    cols = case["pars"] + ["FoM"]
    vals = iter(lcg(case["seed"], 5000, 0.01, 2))
    tab = {(f, b): {p: next(vals) for p in cols} for f in case["fishers"] for b in case["bins"]}
    df = pd.DataFrame([{"fisher": f, "n_sp_bins": b, **v} for (f, b), v in tab.items()])
    copy = df.copy()
    ctx.nontrivial(len(case["sel"]) > 1)
    with figures():
        pl = barplots.ErrorBarPlotter(df)
        pl.opts["figure"].update({"side_x_cm": 10, "side_y_cm": 8})
        if case["title"]:
            pl.legend_title = case["title"]
        raises(TypeError, lambda: setattr(pl, "legend_title", 3), "title of the legend which is a number")
        for b in case["bins"]:
            fig, ax = plt.subplots()
            got = pl.doSingleErrorBarPlot(case["sel"], b, ax=ax, do_legend=case["legend"], usetex=case["tex"])
            check(got is ax, "the bars are drawn in the given panel")
            check_bars(ax, case, tab, b, f"for {b} bins", case["tex"])
            eq(ax.get_legend() is not None, case["legend"], "legend")
            if case["legend"]:
                eq([t.get_text() for t in ax.get_legend().get_texts()], [tex_fisher(c.get_label()) for c in ax.containers], "names in the legend")
                eq([tuple(h[0].get_facecolor()) if not hasattr(h, "get_facecolor") else tuple(h.get_facecolor()) for h in ax.get_legend().legend_handles], [tuple(c[0].get_facecolor()) for c in ax.containers], "colours in the legend")
                eq(ax.get_legend().get_title().get_text(), case["title"] or "", "title of the legend")
        b1, b2 = case["bins"][:2]
        fig, axs = pl.doPairErrorBarPlot(case["sel"], b1, b2, legend=case["legend"])
        for ax, b in zip(axs, (b1, b2)):
            check_bars(ax, case, tab, b, f"for {b} bins of a pair")
        eq([ax.get_legend() is not None for ax in axs], [case["legend"], False], "legend of a pair")
        if len(case["bins"]) == 4:
            fig, axs = pl.doGridErrorBarPlot(case["sel"])
            for ax, b in zip(axs, (4, 12, 24, 40)):
                check_bars(ax, case, tab, b, f"for {b} bins of four", labels_of=axs[0])
        pd.testing.assert_frame_equal(df, copy)
        plt.close("all")
        # gains
        gain = {(f, red, b): next(vals) * 50 - case["loss"] for f in case["fishers"] for red in (False, True) for b in sorted(case["bins"])}
        diff = pd.Series(gain, name="FoM").rename_axis(["fisher", "shot_noise_sp_reduced", "n_sp_bins"]).to_frame()
        fig, axs = fom_gain_plots.comparison_plot_fom_gain(diff, ref=case["fishers"][0], minuends=case["sel"], logscale=case["log"], legend=case["legend"])
        for ax, red in zip(axs, (False, True)):
            eq([q.get_label() for q in ax.lines], [tex_fisher(f) for f in case["sel"]], "curves of the gain")
            for f, q in zip(case["sel"], ax.lines):
                line_eq(q, sorted(case["bins"]), [gain[f, red, b] for b in sorted(case["bins"])], f"of the gain of {f}, shot noise reduced: {red}")
            check(("reduced" if red else "normal") in ax.get_title(), "title of the gains")
            eq(sorted(ax.get_xticks()), sorted(case["bins"]), "numbers of bins shown")
        check(TeXTranslator().toTeX(case["fishers"][0]) in fig._suptitle.get_text(), "reference in the title")


@CHECK.prop(st.fixed_dictionaries({"nl": st.integers(1, 5), "n": st.integers(1, 4), "m": st.integers(1, 4), "square": st.booleans(), "seed": st.integers(0, 10 ** 6), "zeros": st.booleans(), "cut": nice(1, 150, 30),
                                   "show": st.booleans(), "text": st.sampled_from(["", "note"])}), quick=20, thorough=500, rule="a square grid of at least two bins and multipoles")
def differences(case, ctx):
    """maps of the differences between two sets of spectra"""
    n, m = case["n"], case["n"] if case["square"] else case["m"]
    nl = case["nl"]
    a, b = (lcg(case["seed"] + s, nl * n * m, 0.1, 3).reshape(nl, n, m) for s in (0, 1))
    if case["zeros"]:
        a[:, 0, 0] = b[:, 0, 0] = 0
    ctx.nontrivial(n == m and n > 1 and nl > 1)
    tmp = ctx.tmp()
    with figures():
        d = ClDiff("phph", cl1=a, cl2=b, l_values=np.arange(nl))
        pad = np.array([[[0.0 if p == q else 100 * abs(p - q) / abs((p + q) / 2) for p, q in zip(u, v)] for u, v in zip(x, y)] for x, y in zip(a, b)])
        mean = pad.sum(axis=0) / nl
        sigma = np.sqrt(((pad - mean) ** 2).sum(axis=0) / nl)
        used = np.array([[i <= j or n != m for j in range(m)] for i in range(n)])
        want = {"mean_PAD": np.where(used, mean, np.nan), "sigma_PAD": np.where(used, sigma, np.nan)}
        eq(set(d.metrics), set(want), "measures of the difference")
        for k in want:
            close(d.metrics[k], want[k], k, rtol=1e-9, atol=1e-9)
        ref = (a + b) / 2
        rows = {(i, j): (mean[i, j], (ref[:, i, j] / ref.max()).mean(), abs(i - j)) for i in range(n) for j in range(m) if used[i, j]}
        eq(sorted(zip(d.comp_df["i"], d.comp_df["j"])), sorted(rows), "pairs of bins in the table")
        for r in d.comp_df.to_dict("records"):
            close([r["mean_pad"], r["cl_order_of_mag"], r["|i-j|"]], list(rows[r["i"], r["j"]]), f"row of {r['i']}, {r['j']}", rtol=1e-9, atol=1e-9)
        big = np.unravel_index(np.argmax(ref), ref.shape)[1:]
        eq((d.i_max_ref, d.j_max_ref), tuple(big), "bins of the largest spectrum")
        out = tmp / "out"
        out.mkdir()
        d.writeMetricsToFiles(out)
        for k in want:
            close(np.load(out / f"phph_cl_{k}.npy"), want[k], f"{k} in its file", rtol=1e-9, atol=1e-9)
        for k in ("mean_PAD", "sigma_PAD"):
            fig, ax = d.doHeatMap(k, d.metrics[k], outdir=out, show=case["show"], add_text=case["text"])
            eq(plt.fignum_exists(fig.number), case["show"], "the map stays open if it is to be shown")
            check((out / f"{k}_phph.png").exists(), "file of the map")
            (mesh,) = [q for q in ax.collections if isinstance(q, QuadMesh)]
            close(np.ma.filled(np.ma.asarray(mesh.get_array(), dtype=float), np.nan).reshape(n, m), want[k], f"map of {k}", rtol=1e-9, atol=1e-9)
            v = want[k][used]
            texts = [t.get_text() for t in ax.texts]
            check(f"Mean: {v.mean():.3f}\nMax: {v.max():.3f}\nMin: {v.min():.3f}" in texts, f"mean, largest and smallest {k}: {texts}")
            check(not case["text"] or case["text"] in texts, "text added to the map")
            check(k.split("_")[0] in ax.get_title() and "phph" in ax.get_title(), "title of the map")
        d.cutOffMetrics(case["cut"])
        for k in want:
            with np.errstate(invalid="ignore"):
                close(d.metrics[k], np.where(want[k] < case["cut"], want[k], np.nan), f"{k} below a limit", rtol=1e-9, atol=1e-9)


def linear(x, xs, ys):
    i = min(max(int(np.searchsorted(xs, x)) - 1, 0), len(xs) - 2)
    return ys[i] + (x - xs[i]) * (ys[i + 1] - ys[i]) / (xs[i + 1] - xs[i])


@CHECK.prop(st.fixed_dictionaries({"u": cl.background(nz=(4, 12)), "n": vec(3, st.integers(1, 4)), "ia": vec(4, nice(0.1, 2, 20)), "seed": st.integers(0, 10 ** 6)}), quick=12, thorough=300, rule="all probes have several bins")
def weights(case, ctx):
    """weight functions of the probes, lensing with and without intrinsic alignment"""
    cosmo = cl.build_background(case["u"])
    z = cosmo.z_grid
    ctx.nontrivial(min(case["n"]) > 1)
    probes = ["PhotometricGalaxy", "SpectroscopicGalaxy", "Lensing"]
    d, data = {}, {}
    for k, (p, n) in enumerate(zip(probes, case["n"])):
        w = weight_function_for_probe(p)
        data[p] = lcg(case["seed"] + k, n * len(z), 0.1, 2).reshape(n, len(z))
        w.w_bin_z, w.z_grid = data[p].copy(), z.copy()
        d[p] = w
    dens = lcg(case["seed"] + 9, case["n"][2] * len(z), 0.1, 2).reshape(case["n"][2], len(z))
    d["Lensing"].density = SimpleNamespace(norm_density_iz=dens, n_bins=case["n"][2])
    for p, n in zip(probes, case["n"]):
        if p != "Lensing":
            d[p].density = SimpleNamespace(n_bins=n)
    ia = dict(zip(("aIA", "cIA", "etaIA", "betaIA"), case["ia"]))
    pp = par.PhysicalParametersCollection(data_dict={**cl.cosmo_params({}), **{k: par.PhysicalParameter(name=k, fiducial=v, kind=par.PhysicalParameter.NUISANCE_PAR_STRING, probe="Lensing", is_free_parameter=True) for k, v in ia.items()}},
                                          base_stem_disps=np.array([0.01]), is_universe_flat=True)
    with figures():
        fig, axs = cl_plot.plot_weight_funcs(SimpleNamespace(weight_dict=d), cosmo, pp)
        lum_z, lum = np.loadtxt(fsu.default_data_dir() / "scaledmeanlum-E2Sa.dat", unpack=True)
        F = (1 + z) ** ia["etaIA"] * np.array([linear(x, lum_z, lum) for x in z]) ** ia["betaIA"]
        for p, ax in zip(probes, axs):
            solid = [q for q in ax.lines if q.get_linestyle() == "-"]
            eq(len(solid), len(data[p]), f"curves of {p}")
            eq(len({tuple(q.get_color()) for q in solid}), len(solid), f"each bin of {p} has its colour")
            for i, q in enumerate(solid):
                eq(q.get_label(), f"${i + 1}$", "number of a bin")
                line_eq(q, z, data[p][i], f"of bin {i} of {p}")
            rest = [q for q in ax.lines if q.get_linestyle() == "--"]
            eq(len(rest), len(data[p]) if p == "Lensing" else 0, f"curves without intrinsic alignment of {p}")
            for i, q in enumerate(rest):
                eq(tuple(q.get_color()), tuple(solid[i].get_color()), "colour of a bin")
                want = data[p][i] + ia["aIA"] * ia["cIA"] * F * case["u"]["Omm"] * cosmo.H_z * dens[i] / (cosmo.growth_factor_z * cl.C_KM_S)
                close(q.get_ydata(), want, f"bin {i} without intrinsic alignment", rtol=1e-6)


@st.composite
def map_case(draw):
    rows = draw(st.lists(st.sampled_from(fl.COSMO + fl.NUIS), min_size=1, max_size=5, unique=True))
    return {"rows": rows, "seed": draw(st.integers(0, 10 ** 6)), "tex": draw(st.booleans()), "log": draw(st.booleans()), "invert": draw(st.booleans()), "title": draw(st.sampled_from(["", "T"])),
            "kind": draw(st.sampled_from(["scatter", "line", "other"])), "codes": draw(st.integers(1, 3)), "unmarg": draw(st.booleans())}


@CHECK.prop(map_case(), quick=25, thorough=600, rule="three or more parameters")
def maps(case, ctx):
    """maps of matrices, series of numbers and differences of errors"""
    ps, n = case["rows"], len(case["rows"])
    ctx.nontrivial(n > 2)
    vals = lcg(case["seed"], n * n, 0.1, 3).reshape(n, n)
    df = pd.DataFrame(vals, index=ps, columns=ps)
    with figures():
        plt.figure()
        ax = plot_utils.heatmap(df, title=case["title"], usetex=case["tex"], logscale=case["log"], invert_yaxis=case["invert"])
        mesh = check_heatmap(ax, vals, ps, (lambda p: f"${TEX[p]}$") if case["tex"] else str, "of a map")
        eq(isinstance(mesh.norm, matplotlib.colors.LogNorm), case["log"], "scale of the colours")
        eq(ax.get_title(), case["title"], "title")
        eq(ax.get_ylim()[0] < ax.get_ylim()[1], case["invert"], "orientation of the map")
        plt.close("all")
        fig, ax = plt.subplots()
        series = pd.Series(vals[0], index=ps)
        if case["kind"] == "other":
            raises(ValueError, lambda: misc.plot_series(series, kind="other", ax=ax), "kind of plot")
        else:
            got = misc.plot_series(series, kind=case["kind"], ax=ax, usetex=False)
            check(got is ax, "the given panel is used")
            if case["kind"] == "line":
                y = ax.lines[0].get_ydata()
            else:
                y = ax.collections[0].get_offsets()[:, 1]
            same_bits(np.asarray(y, dtype=float), vals[0], "numbers of the series")
            eq([t.get_text() for t in ax.get_xticklabels()], ps, "labels of the series")
        plt.close("all")
        fig, ax = plt.subplots()
        misc.add_scenario_n_bins_text_box(ax, 0.3, 0.4, "optimistic", n_bins=n)
        (t,) = ax.texts
        check("ptimistic" in t.get_text() and f"${n}$" in t.get_text() and t.get_position() == (0.3, 0.4), "text of the scenario and the number of bins")

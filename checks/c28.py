"""C28: diagnostic plots."""
import copy
import itertools

import matplotlib
matplotlib.use("Agg")
import numpy as np
import statsmodels.api as sm
from matplotlib import pyplot as plt
from matplotlib.colors import to_rgb
from sklearn.dummy import DummyRegressor
from sklearn.linear_model import LinearRegression

from bartpy import plotting
from bartpy.diagnostics.diagnostics import plot_diagnostics
from bartpy.diagnostics.features import (plot_feature_proportions_against_thresholds, plot_feature_split_proportions,
                                         plot_null_feature_importance_distributions)
from bartpy.diagnostics.residuals import plot_homoskedasity_diagnostics, plot_qq
from bartpy.diagnostics.sampling import plot_tree_mutation_acceptance_rate
from bartpy.diagnostics.sigma import plot_sigma_convergence
from bartpy.diagnostics.trees import plot_tree_depth
from bartpy.extensions.baseestimator import ResidualBART
from bartpy.extensions.ols import OLS
from bartpy.features.featureselection import SelectNullDistributionThreshold, SelectSplitProportionThreshold
from bartpy.data import Data
from bartpy.model import Model
from bartpy.sigma import Sigma
from bartpy.sklearnmodel import SklearnModel
from bartpy.tree import deep_copy_tree

from mc import real, ref
from mc.backends import isolated
from mc.core import Coverage, need
from checks import big, common, streams
from checks.c20 import KW, Script, X3, XW, Y3, YW, quantile, recount

TARGETS = [Y3, Y3 * 40 - 3, np.array([5.0, -1.0, 0.5, 2.0]), np.array([0.0, 0.0, 1.0, 0.0])]


def items(tier):
    q = tier == "quick"
    out = []
    for k in range(12 if q else 60):
        out.append({"kind": "model", "script": k, "q": q})
    out += [{"kind": "long", "n": n} for n in (150, 1100)]
    out += [{"kind": "deep", "case": c} for c in big.cases("quick") if c[0] != "huge"]
    for cls in ("plain", "residual", "dummy", "ols"):
        for i in range(len(TARGETS)):
            out.append({"kind": "residuals", "cls": cls, "target": i, "q": q})
        out += [{"kind": "residuals", "cls": cls, "rows": n, "q": q, "target": 0} for n in (130, 1203)]
    for p in (1, 2, 3):
        out.append({"kind": "thresholds", "vars": p, "q": q})
        out.append({"kind": "null", "vars": p, "q": q})
    for cls in ("proportion", "local", "global"):
        out.append({"kind": "selector", "cls": cls, "n": 4 if q else 16})
        out.append({"kind": "selector", "cls": cls, "n": 2 if q else 8, "wide": True})
    for k in range(4 if q else 16):
        out.append({"kind": "wide", "script": k})
    return out


def bounds(tier):
    return {"chains": "%d scripted fits x 1-2 chains x 1-3 samples x 1-2 trees x given or own axes" % (12 if tier == "quick" else 60),
            "residual plots": "the estimator and its extensions, 4 targets, chains, scripts; 130 and 1203 rows", "thresholds": "all proportions and thresholds over 3 levels, 1-3 variables",
            "null distributions": "all over 3 levels, 1-3 variables x 2-3 permutations (every 5th of the largest in quick)", "selectors": ["split proportion", "local", "global"],
            "long and deep": "chains of 150 and 1100 samples; " + big.describe("quick"), "many variables": "fits, thresholds, null distributions and selectors with 13 variables"}


def run(item):
    try:
        return globals()["run_" + item["kind"]](item)
    finally:
        plt.close("all")


def untouched(ax):
    return not (ax.lines or ax.collections or ax.patches or ax.containers) and not ax.get_title() and not ax.get_xlabel() and not ax.get_ylabel()


def draw(f, given, **d):
    """Calls f(ax) with axes that are not the current ones, or f() ; gives the axes drawn on."""
    plt.close("all")
    fig, (a, b) = plt.subplots(1, 2)
    plt.sca(b)
    if given:
        got = f(a)
        need(got is None or got is a, "a plot does not return the axes it was given", **d)
        need(untouched(b), "a plot draws on axes other than the ones it was given", **d)
        need(plt.get_fignums() == [fig.number], "a plot on given axes opens another figure", **d)
        return a
    got = f(None)
    need(untouched(a) and untouched(b), "a plot without axes draws on axes of another plot", **d)
    need(got is not None, "a plot does not return its axes", **d)
    return got


def series(ax):
    """Curves of an axes."""
    return [np.asarray(l.get_ydata(), dtype=float) for l in ax.lines]


def same(a, b):
    a, b = np.asarray(a, dtype=float).ravel(), np.asarray(b, dtype=float).ravel()
    return a.shape == b.shape and bool(np.allclose(a, b, rtol=1e-7, atol=1e-9))


def one_curve(ax, want, what, **d):
    s = series(ax)
    need(len(s) == 1 and same(s[0], want), "the plot does not show " + what, got=[x.tolist() for x in s], expected=np.asarray(want).tolist(), **d)
    x = np.asarray(ax.lines[0].get_xdata(), dtype=float)
    need(len(x) == len(want) and np.all(np.diff(x) > 0), "a curve is not drawn in sample order", got=x.tolist(), **d)


def sigmas(est):
    return [float(s.sigma.current_value()) for s in est.model_samples]


def depths(est):
    out = []
    for s in est.model_samples:
        dd = [len(p) for t in s.trees for p in real.index(t)]
        out.append((min(dd), float(np.mean(dd)), max(dd)))
    return np.array(out, dtype=float)


def check_depth(ax, want, **d):
    s = series(ax)
    need(len(s) == 3 and all(any(same(x, want[:, j]) for x in s) for j in range(3)), "the plot does not show the least, mean and greatest depth of each sample",
         got=[x.tolist() for x in s], expected=want.tolist(), **d)
    for l in ax.lines:
        for j, name in enumerate(("min", "mean", "max")):
            if name in str(l.get_label()).lower():
                need(same(l.get_ydata(), want[:, j]), "a depth curve is labelled as another one", label=l.get_label(), got=list(map(float, l.get_ydata())), expected=want[:, j].tolist(), **d)


def check_qq(ax, r, **d):
    """Standardized residuals in order against increasing quantiles."""
    r = np.asarray(r, dtype=float)
    want = np.sort((r - r.mean()) / r.std())
    pts = [(np.asarray(l.get_xdata(), dtype=float), np.asarray(l.get_ydata(), dtype=float)) for l in ax.lines]
    ok = [(x, y) for x, y in pts if same(y, want) and len(x) == len(r)]
    need(len(ok) >= 1, "the QQ plot does not show the model's residuals", got=[y.tolist() for _, y in pts], expected=want.tolist(), **d)
    need(any(np.all(np.diff(x) > 0) and np.allclose(x, -x[::-1], atol=1e-9) for x, _ in ok), "the QQ plot does not set them against normal quantiles", got=[x.tolist() for x, _ in ok], **d)


def points(ax):
    return [np.asarray(c.get_offsets(), dtype=float) for c in ax.collections if len(np.asarray(c.get_offsets())) and hasattr(c, "get_sizes")]


def by_pair(a):
    a = np.asarray(a, dtype=float).reshape(-1, 2)
    return a[np.lexsort((a[:, 1].round(7), a[:, 0].round(7)))]


def check_homo(ax, pred, r, **d):
    want = by_pair(np.column_stack([pred, r]))
    got = points(ax)
    need(any(g.shape == want.shape and np.allclose(by_pair(g), want, rtol=1e-7, atol=1e-9) for g in got), "the plot does not show each residual against its fitted value", got=[g.tolist() for g in got], expected=want.tolist(), **d)


def check_bars(ax, counts, **d):
    """Horizontal bars named after their variable."""
    total = sum(counts)
    want = {v: c / total for v, c in enumerate(counts) if c}
    labels = {round(float(t.get_position()[1]), 6): t.get_text() for t in ax.get_yticklabels()}
    got = {}
    for p in ax.patches:
        mid = round(float(p.get_y() + p.get_height() / 2), 6)
        need(mid in labels, "a bar of the split proportions has no name", position=mid, labels=labels, **d)
        got[labels[mid]] = float(p.get_width())
    got = {k: v for k, v in got.items() if abs(v) > 1e-12}
    need({str(k) for k in want} == set(got) and all(abs(got[str(k)] - v) < 1e-9 for k, v in want.items()), "the plot does not show each variable's proportion of splits", got=got, expected=want, **d)


class frozen:
    """The plots leave the model alone."""

    def __init__(self, est, Q, **d):
        self.est, self.Q, self.d = est, Q, d

    def state(self):
        e = self.est
        return (common.states_of(e), np.asarray(e.predict(self.Q)).tolist(), np.asarray(e.prediction_samples).tolist(), [dict(a) for a in e.acceptance_trace],
                np.asarray(e.data.X.values).tolist(), np.asarray(e.data.y.unnormalized_y).tolist(), len(e.extract), str(e.get_params(deep=False).keys()))

    def __enter__(self):
        self.before = self.state()

    def __exit__(self, et, ev, tb):
        if et is None:
            need(self.state() == self.before, "plotting changed the model", **self.d)
        return False


class shown:
    """Figures handed to plt.show."""

    def __enter__(self):
        plt.close("all")
        self.figs, self.orig = [], plt.show

        def show(*a, **k):
            self.figs.append([plt.figure(n) for n in plt.get_fignums()])
        plt.show = show
        return self

    def __exit__(self, *e):
        plt.show = self.orig
        return False


def check_panels(figs, est, pred, r, **d):
    axes = [a for f in figs for a in f.axes]
    found = []
    tests = [lambda a: one_curve(a, sigmas(est), "s"), lambda a: check_depth(a, depths(est)), lambda a: one_curve(a, [x["Tree"] for x in est.acceptance_trace], "a"), lambda a: check_homo(a, pred, r)]
    if np.std(r) > 1e-9:
        tests.append(lambda a: check_qq(a, r))
    for i, t in enumerate(tests):
        hit = []
        for a in axes:
            try:
                t(a)
            except Exception:
                continue
            hit.append(a)
        need(hit, "the diagnostics lack a panel, or it shows other values", panel=["noise level", "depth", "acceptance rate", "residuals against fitted values", "QQ"][i], **d)
        found.append(hit)


def run_model(item):
    cov = Coverage()
    k = item["script"]
    for trees, chains, n, given in itertools.product((1, 2), (1, 2), (1, 3), (True, False)):
        streams.reset()
        y = TARGETS[(k + trees) % 2]
        est = streams.make(n_trees=trees, n_chains=chains, n_samples=n, n_burn=k % 2, tree_sampler=Moving(k), n_jobs=1 if k % 3 else 2)
        d = dict(script=k, trees=trees, chains=chains, samples=n, axes="given" if given else "own")
        np.random.seed(k)
        if k % 3:
            est.fit(X3.copy(), y.copy())
        else:
            with isolated():
                est.fit(X3.copy(), y.copy())
        counts = recount(est.model_samples)
        with frozen(est, X3, **d):
            one_curve(draw(lambda a: plot_sigma_convergence(est, a), given, plot="sigma", **d), sigmas(est), "the noise level of each sample", **d)
            check_depth(draw(lambda a: plot_tree_depth(est, a), given, plot="depth", **d), depths(est), **d)
            one_curve(draw(lambda a: plot_tree_mutation_acceptance_rate(est, a), given, plot="acceptance", **d), [x["Tree"] for x in est.acceptance_trace], "the acceptance rate of each sample", **d)
            if sum(counts):
                check_bars(draw(lambda a: plot_feature_split_proportions(est, a), given, plot="proportions", **d), counts, **d)
        cov.states += 4
        cov.executions += 1
        cov.transitions += 4
        cov.outcomes.add((tuple(counts), tuple(map(tuple, depths(est).tolist()))))
    cov.sample({"script": k, "depths": depths(est).tolist(), "noise": sigmas(est)})
    return cov


def run_long(item):
    """A longer chain, stored completely."""
    cov = Coverage()
    for chains in ((1, 2) if item["n"] < 1000 else (1,)):
        streams.reset()
        est = streams.make(n_trees=1, n_chains=chains, n_samples=item["n"], n_burn=0, tree_sampler=Moving(chains))
        est.fit(X3.copy(), Y3.copy())
        d = dict(chains=chains, samples=item["n"])
        one_curve(draw(lambda a: plot_sigma_convergence(est, a), True, **d), sigmas(est), "the noise level of each sample", **d)
        check_depth(draw(lambda a: plot_tree_depth(est, a), True, **d), depths(est), **d)
        one_curve(draw(lambda a: plot_tree_mutation_acceptance_rate(est, a), True, **d), [x["Tree"] for x in est.acceptance_trace], "the acceptance rate of each sample", **d)
        check_bars(draw(lambda a: plot_feature_split_proportions(est, a), True, **d), recount(est.model_samples), **d)
        cov.states += 4
        cov.executions += 1
        cov.transitions += item["n"]
    return cov


def run_deep(item):
    """Deep trees: the models along a long history, stored as samples."""
    cov = Coverage()
    name, style, steps = item["case"]
    A, y = big.data(name)
    tree, samples = real.new_tree(A, y), []
    data, sg = Data(A.copy(), y.copy()), Sigma(1.0, 1.0, 1.0)
    for m, t in big.history(A, style, steps):
        real.do(tree, m)
        samples.append(Model(data, sg, trees=[deep_copy_tree(tree)], initializer=None))
    est = SklearnModel(n_trees=1, n_chains=1, n_jobs=1).from_extract([{"model": samples, "acceptance": [], "in_sample_predictions": []}], A, y)
    d = dict(case=item["case"])
    check_depth(draw(lambda a: plot_tree_depth(est, a), True, **d), depths(est), **d)
    check_bars(draw(lambda a: plot_feature_split_proportions(est, a), True, **d), recount(est.model_samples, A), **d)
    cov.states += len(samples)
    cov.executions += 2
    cov.transitions += len(samples)
    cov.outcomes.add(float(depths(est).max()))
    return cov


class Moving(Script):
    """Reports an accepted update except on every third one."""

    def step(self, model, tree):
        before = real.canon(tree)
        if (self.sweep * 2 + self.k) % 3 == 1:
            self.sweep += tree is model.trees[0]
            return None
        Script.step(self, model, tree)
        from bartpy.mutation import TreeMutation
        return TreeMutation("grow", None, None) if real.canon(tree) != before else None


def run_residuals(item):
    cov = Coverage()
    X, y = X3, TARGETS[item["target"]]
    if "rows" in item:
        X, y = (np.vstack([a] * 10)[:item["rows"]] if a.ndim == 2 else np.tile(a, 10)[:item["rows"]] for a in big.data("tall"))
        y = y + 0.003 * (np.arange(len(y)) * 7 % 11)
    for k, chains, given in itertools.product(range(2 if item["q"] else 8), (1, 2), (True, False)):
        streams.reset()
        if "rows" in item and (k or not given):
            continue
        kw = dict(n_trees=2, n_chains=chains, n_samples=2, tree_sampler=Moving(k + 3 * item["target"]))
        if "rows" in item:
            del kw["tree_sampler"]
        cls = {"plain": None, "residual": ResidualBART, "dummy": ResidualBART, "ols": OLS}[item["cls"]]
        if item["cls"] == "residual":
            kw["base_estimator"] = LinearRegression(fit_intercept=False)
        if item["cls"] == "dummy":
            kw["base_estimator"] = DummyRegressor(strategy="constant", constant=7.0)
        if item["cls"] == "ols":
            kw["stat_model"] = sm.OLS
        est = streams.make(cls, **kw)
        est.fit(X.copy(), y.copy())
        d = dict(estimator=item["cls"], target=y.tolist()[:8], script=k, chains=chains, axes="given" if given else "own")
        pred = np.asarray(est.predict(X), dtype=float)
        r = y - pred
        if k == 0:      # the plots that need no stored training predictions do without them
            est.set_params(store_in_sample_predictions=False)
            if r.std() > 1e-9:
                check_qq(draw(lambda a: plot_qq(est, a), given, plot="qq", stored=False, **d), r, **d)
            check_homo(draw(lambda a: plot_homoskedasity_diagnostics(est, a), given, plot="fitted and residuals", stored=False, **d), pred, r, **d)
            with shown() as s:
                plot_diagnostics(est)
            check_panels([f for fs in s.figs for f in fs], est, pred, r, stored=False, **d)
            est.set_params(store_in_sample_predictions=True)
        with frozen(est, X, **d):
            if r.std() > 1e-9:
                check_qq(draw(lambda a: plot_qq(est, a), given, plot="qq", **d), r, **d)
            check_homo(draw(lambda a: plot_homoskedasity_diagnostics(est, a), given, plot="fitted and residuals", **d), pred, r, **d)
            with shown() as s:
                plotting.plot_residuals(est)
            need(len(s.figs) == 1 and len(s.figs[0]) == 1, "the residual plot is not shown once", figures=len(s.figs), **d)
            one_curve(s.figs[0][0].gca(), r, "the residual of each row", **d)
            with shown() as s:
                plotting.plot_modelled_against_actual(est)
            got = series(s.figs[0][0].gca())
            need(len(got) == 2 and any(same(got[i], y) and same(got[1 - i], pred) for i in (0, 1)), "the plot does not show the predictions and the actual targets", got=[g.tolist() for g in got],
                 expected=[y.tolist(), pred.tolist()], **d)
            if given:
                with shown() as s:
                    plot_diagnostics(est)
                need(len(s.figs) == 1, "the diagnostics are not shown once", **d)
                check_panels(s.figs[0], est, pred, r, **d)
        cov.states += 5
        cov.executions += 1
        cov.transitions += 5
    cov.sample({"estimator": item["cls"], "target": y.tolist()})
    return cov


def check_thresholds(ax, props, thr, **d):
    """Bars at the thresholds, passed and failed variables in their colours, all in percent."""
    bars = {round(float(p.get_x() + p.get_width() / 2), 6): float(p.get_height()) for p in ax.patches}
    need(set(bars) == {float(v) for v in thr} and all(abs(bars[float(v)] - 100 * t) < 1e-9 for v, t in thr.items()), "the plot does not show each variable's threshold", got=bars, expected=thr, **d)
    got = {}
    for c in ax.collections:
        col = np.asarray(c.get_facecolor())
        for i, (x, yv) in enumerate(np.asarray(c.get_offsets(), dtype=float)):
            rgb = tuple(col[min(i, len(col) - 1)][:3])
            got[round(float(x), 6)] = (float(yv), rgb)
    need(set(got) == {float(v) for v in props} and all(abs(got[float(v)][0] - 100 * p) < 1e-9 for v, p in props.items()), "the plot does not show each variable's proportion", got=got, expected=props, **d)
    passed = {got[float(v)][1] for v in props if props[v] > thr[v]}
    failed = {got[float(v)][1] for v in props if not props[v] > thr[v]}
    need(len(passed) <= 1 and len(failed) <= 1 and not passed & failed, "the plot does not tell passed from failed variables", passed=passed, failed=failed, **d)
    need(passed <= {to_rgb("g")} and failed <= {to_rgb("r")}, "a passed variable is not green or a failed one not red", passed=passed, failed=failed, **d)


def run_thresholds(item):
    cov = Coverage()
    p = item["vars"]
    lv = [0.0, 0.25, 0.75]
    all_ = list(itertools.product(lv, repeat=2 * p))
    if p == 3 and item["q"]:
        all_ = all_[::7]
    plt.close("all")
    fig, (a, b) = plt.subplots(1, 2)
    for j, vals in enumerate(all_):
        props, thr = {v: vals[v] for v in range(p)}, {v: vals[p + v] for v in range(p)}
        if j % 3 == 1:
            props = dict(reversed(list(props.items())))
        d = dict(proportions=props, thresholds=thr)
        keep = copy.deepcopy((props, thr))
        if j % 40 == 0:
            for given in (True, False):
                check_thresholds(draw(lambda ax: plot_feature_proportions_against_thresholds(props, thr, ax), given, **d), props, thr, **d)
            plt.close("all")
            fig, (a, b) = plt.subplots(1, 2)
        a.cla()
        plt.sca(b)
        plot_feature_proportions_against_thresholds(props, thr, a)
        need(untouched(b), "a plot draws on axes other than the ones it was given", **d)
        check_thresholds(a, props, thr, **d)
        need((props, thr) == keep, "plotting changed its arguments", **d)
        cov.states += 1
        cov.executions += 1
    return cov


def check_null(ax, null, **d):
    """A box for each variable: quartiles, median, extent."""
    names = [t.get_text() for t in ax.get_xticklabels()]
    pos = [float(t) for t in ax.get_xticks()]
    need(sorted(names) == sorted(str(v) for v in null), "the boxes are not named after the variables", got=names, **d)
    for v, values in null.items():
        x = pos[names.index(str(v))]
        boxes = []
        for p in ax.patches:
            e = p.get_path().vertices
            if abs((e[:, 0].min() + e[:, 0].max()) / 2 - x) < 0.25:
                boxes.append((float(e[:, 1].min()), float(e[:, 1].max())))
        ys = []
        for l in ax.lines:
            xd, yd = np.asarray(l.get_xdata(), dtype=float), np.asarray(l.get_ydata(), dtype=float)
            if len(xd) and abs((np.nanmin(xd) + np.nanmax(xd)) / 2 - x) < 0.25:
                ys += [float(t) for t in yd if np.isfinite(t)]
        q1, q2, q3 = (quantile(values, t) for t in (0.25, 0.5, 0.75))
        # a degenerate box has no extent and the patch may fold the median line
        need(any(abs(lo - q1) < 1e-9 and abs(hi - q3) < 1e-9 for lo, hi in boxes), "the box of a variable does not span its quartiles", variable=v, got=boxes, expected=[q1, q3], null=null, **d)
        need(any(abs(t - q2) < 1e-9 for t in ys), "the median of a variable is not shown", variable=v, expected=q2, got=ys, null=null, **d)
        lo, hi = min(ys + [b[0] for b in boxes]), max(ys + [b[1] for b in boxes])
        need(abs(lo - min(values)) < 1e-9 and abs(hi - max(values)) < 1e-9, "the extent of a variable's null distribution is not shown", variable=v, got=[lo, hi], expected=[min(values), max(values)], **d)


def run_null(item):
    cov = Coverage()
    p = item["vars"]
    for r in ((2, 3) if p < 3 else (2,)):
        all_ = list(itertools.product([0.0, 0.25, 1.0], repeat=p * r))
        for j, flat in enumerate(all_ if not (item["q"] and len(all_) > 100) else all_[::17]):
            null = {v: list(flat[v * r:(v + 1) * r]) for v in range(p)}
            keep = copy.deepcopy(null)
            for given in ((True, False) if j % 8 == 0 else (True,)):
                ax = draw(lambda a: plot_null_feature_importance_distributions(null, a), given, null=null)
                check_null(ax, null)
                need(null == keep, "plotting changed its arguments", null=keep)
                cov.states += 1
                cov.executions += 1
    return cov


def run_wide(item):
    """Names with two digits, in bars, thresholds and boxes."""
    cov = Coverage()
    k = item["script"]
    for trees, chains, given in itertools.product((1, 3), (1, 2), (True, False)):
        streams.reset()
        est = streams.make(n_trees=trees, n_chains=chains, n_samples=4, n_burn=0, tree_sampler=Script(k, True))
        est.fit(XW.copy(), YW.copy())
        d = dict(script=k, trees=trees, chains=chains, columns=KW)
        counts = recount(est.model_samples, XW)
        if sum(counts):
            check_bars(draw(lambda a: plot_feature_split_proportions(est, a), given, **d), counts, **d)
        check_depth(draw(lambda a: plot_tree_depth(est, a), given, **d), depths(est), **d)
        pred = np.asarray(est.predict(XW), dtype=float)
        check_homo(draw(lambda a: plot_homoskedasity_diagnostics(est, a), given, **d), pred, YW - pred, **d)
        check_qq(draw(lambda a: plot_qq(est, a), given, **d), YW - pred, **d)
        cov.states += 4
        cov.executions += 1
        cov.transitions += 4
    r = big.lcg(k)
    for trial in range(6):
        null = {v: [r(7) / 6 for _ in range(1 + trial)] for v in range(KW)}
        props, thr = {v: r(9) / 16 for v in range(KW)}, {v: r(9) / 16 for v in range(KW)}
        if trial % 2:
            props = {v: props[v] for v in sorted(props, key=str)}
        d = dict(proportions=props, thresholds=thr)
        check_thresholds(draw(lambda a: plot_feature_proportions_against_thresholds(props, thr, a), trial % 2 == 0, **d), props, thr, **d)
        check_null(draw(lambda a: plot_null_feature_importance_distributions(null, a), trial % 2 == 0, null=null), null)
        cov.states += 2
        cov.executions += 1
    return cov


def run_selector(item):
    cov = Coverage()
    wide = item.get("wide", False)
    X0, Y0 = (XW, YW) if wide else (X3, Y3)
    for k in range(item["n"]):
        streams.reset()
        np.random.seed(k)
        spec = streams.make(n_trees=1 + k % 2, n_chains=1 + k % 2, n_samples=2, n_burn=0, tree_sampler=Script(k, wide))
        pc = (0.25, 0.5, 0.9)[k % 3]
        sel = SelectSplitProportionThreshold(spec, percentile=pc) if item["cls"] == "proportion" else SelectNullDistributionThreshold(spec, percentile=pc, method=item["cls"], n_permutations=3)
        sel.fit(X0.copy(), Y0.copy())
        d = dict(selector=item["cls"], script=k, percentile=pc, columns=len(X0[0]))
        with frozen(sel.model, X0, **d), shown() as s:
            sel.plot()
        need(len(s.figs) == 1, "the plot of a selector is not shown once", **d)
        axes = [a for f in s.figs[0] for a in f.axes]
        if item["cls"] == "proportion":
            counts = recount(sel.model.model_samples, X0)
            if sum(counts):
                need(len(axes) == 1, "the plot of a selector has other axes", axes=len(axes), **d)
                check_bars(axes[0], counts, **d)
        else:
            need(len(axes) == 2, "the plot of a selector has other axes", axes=len(axes), **d)
            a = [x for x in axes if x.collections]
            need(len(a) >= 1, "the plot of a selector shows no proportions", **d)
            check_thresholds(a[0], dict(sel.feature_proportions), dict(sel.thresholds), **d)
            check_null([x for x in axes if x is not a[0]][0], sel.null_distribution, **d)
        cov.states += 1
        cov.executions += 1
        cov.transitions += 1
    return cov

"""C27: parameters."""
import copy
import itertools
import pickle

import numpy as np
from sklearn.base import clone
from sklearn.dummy import DummyRegressor
from sklearn.linear_model import LinearRegression
from sklearn.model_selection import GridSearchCV
from sklearn.pipeline import Pipeline

from bartpy.extensions.baseestimator import ResidualBART
from bartpy.extensions.ols import OLS
from bartpy.features.featureselection import SelectNullDistributionThreshold, SelectSplitProportionThreshold
from bartpy.initializers.initializer import Initializer
from bartpy.sklearnmodel import SklearnModel

from mc import backends
from mc.backends import isolated
from mc.core import Coverage, need
from checks import common
from checks.c12 import kept

X = np.array([[0.0, 1.0], [1.0, 0.0], [2.0, 3.0]])
Y = np.array([1.0, 5.0, 2.0])
STEPS, INITS, STATS = [], [], []


class Spy:
    """A tree sampler that records the models it is given."""

    def __init__(self, tag):
        self.tag = tag

    def step(self, model, tree):
        if tree is model.trees[0]:
            STEPS.append((self.tag, float(model.alpha), float(model.beta), float(model.sigma.alpha), float(model.sigma.beta), len(model.trees)))
        return None


class Init(Initializer):
    def __init__(self, tag):
        self.tag = tag

    def initialize_tree(self, tree):
        INITS.append(self.tag)


def stat(tag):
    class S:
        name = tag

        def __init__(self, y, X):
            STATS.append(tag)
            self.y, self.X = np.asarray(y), np.asarray(X)
            self.resid = self.y - self.y.mean()

        def fit(self):
            return self

        def predict(self, X):
            return np.full(len(X), self.y.mean())
    S.__name__ = S.__qualname__ = "Stat_" + tag
    return S


StatA, StatB = stat("A"), stat("B")
Stat_A, Stat_B = StatA, StatB

BASE = {"n_trees": 1, "n_chains": 1, "sigma_a": 0.5, "sigma_b": 0.25, "n_samples": 2, "n_burn": 0, "thin": 1.0, "alpha": 0.95, "beta": 2.0,
        "store_in_sample_predictions": True, "store_acceptance_trace": True, "tree_sampler": ("spy", "base"), "initializer": None, "n_jobs": 1}
VALUES = {"n_trees": [2, 3], "n_chains": [2, 3], "sigma_a": [1.5, 0.0], "sigma_b": [3.0, 0.0], "n_samples": [1, 5], "n_burn": [1, 3], "thin": [0.5, 0.25],
          "alpha": [0.5, 0.0], "beta": [1.0, 0.0], "store_in_sample_predictions": [False, True], "store_acceptance_trace": [False, True],
          "tree_sampler": [("spy", "one"), ("spy", "two")], "initializer": [("init", "one"), ("init", "two")], "n_jobs": [2, 3]}
EXTRA = {"SklearnModel": {}, "ResidualBART": {"base_estimator": [("dummy", 10.0), ("dummy", -20.0)]}, "OLS": {"stat_model": [("stat", "A"), ("stat", "B")]}}
CLASSES = {"SklearnModel": SklearnModel, "ResidualBART": ResidualBART, "OLS": OLS}


def build(v):
    if isinstance(v, (tuple, list)):
        kind, tag = v
        return {"spy": lambda: Spy(tag), "init": lambda: Init(tag), "dummy": lambda: DummyRegressor(strategy="constant", constant=tag), "stat": lambda: {"A": StatA, "B": StatB}[tag]}[kind]()
    return v


def describe(v):
    if isinstance(v, Spy):
        return ("spy", v.tag)
    if isinstance(v, Init):
        return ("init", v.tag)
    if isinstance(v, DummyRegressor):
        return ("dummy", v.constant)
    if isinstance(v, type):
        return ("stat", getattr(v, "name", v.__name__))
    return v


def base_of(cls):
    out = dict(BASE)
    if cls == "ResidualBART":
        out["base_estimator"] = ("dummy", 0.0)
    if cls == "OLS":
        out["stat_model"] = ("stat", "A")
    return out


def values_of(cls):
    return dict(VALUES, **EXTRA[cls])


def items(tier):
    q = tier == "quick"
    out = []
    for cls in CLASSES:
        for p in sorted(values_of(cls)):
            out.append({"kind": "pairs", "cls": cls, "first": p, "full": not q})
        out.append({"kind": "sequences", "cls": cls, "full": not q})
        out.append({"kind": "clones", "cls": cls})
    out.append({"kind": "tools"})
    for cls in SELECTORS:
        out.append({"kind": "selectors", "cls": cls, "full": not q})
        out.append({"kind": "selector_tools", "cls": cls})
    return out


def bounds(tier):
    return {"parameters": {c: sorted(dict(BASE, **EXTRA[c])) for c in CLASSES}, "values": "two others besides the base value for each",
            "combinations": "every parameter set at construction with every one set later, cloned or not in between, fitted or not before", "execution": ["sequential", "isolated as in worker processes"]}


def fit(est, how="sequential"):
    del STEPS[:], INITS[:], STATS[:]
    with common.Tape(5):
        if how == "isolated":
            with isolated():
                est.fit(X.copy(), Y.copy())
        else:
            est.fit(X.copy(), Y.copy())
    return est


def params_ok(est, want, **d):
    got = est.get_params(deep=False)
    need(set(got) == set(want), "get_params does not list exactly the constructor parameters", got=sorted(got), expected=sorted(want), **d)
    for k, v in want.items():
        need(describe(got[k]) == (tuple(v) if isinstance(v, list) else v), "get_params does not give back what was set", parameter=k, got=str(describe(got[k])), expected=str(v), **d)
        need(describe(getattr(est, k)) == (tuple(v) if isinstance(v, list) else v), "an attribute does not hold what was set", parameter=k, **d)


def effects_ok(est, want, cls, **d):
    """After a fit: what was used."""
    chains, n, burn, nt = want["n_chains"], want["n_samples"], want["n_burn"], want["n_trees"]
    need(len(est.extract) == chains, "n_chains is not used", got=len(est.extract), expected=chains, **d)
    k = len(kept(n, want["thin"]))
    need(len(est.model_samples) == chains * k, "n_samples or thin is not used", got=len(est.model_samples), expected=chains * k, **d)
    need(len(STEPS) == chains * (n + burn), "n_samples or n_burn is not used", got=len(STEPS), expected=chains * (n + burn), **d)
    for tag, a, b, sa, sb, m in STEPS:
        need(tag == want["tree_sampler"][1], "the tree sampler is not used", got=tag, expected=want["tree_sampler"][1], **d)
        need(a == want["alpha"] and b == want["beta"], "alpha or beta is not used", got=[a, b], expected=[want["alpha"], want["beta"]], **d)
        need(sa == want["sigma_a"] and sb == want["sigma_b"], "sigma_a or sigma_b is not used", got=[sa, sb], expected=[want["sigma_a"], want["sigma_b"]], **d)
        need(m == nt, "n_trees is not used", got=m, expected=nt, **d)
    need(all(len(s.trees) == nt for s in est.model_samples), "n_trees is not used", expected=nt, **d)
    need(len(est.prediction_samples) == (chains * k if want["store_in_sample_predictions"] else 0), "store_in_sample_predictions is not used", got=len(est.prediction_samples), **d)
    need(len(est.acceptance_trace) == (chains * k if want["store_acceptance_trace"] else 0), "store_acceptance_trace is not used", got=len(est.acceptance_trace), **d)
    if want["initializer"] is None:
        need(not INITS, "an initializer is used that was not set", **d)
    else:
        need(INITS and set(INITS) == {want["initializer"][1]}, "the initializer is not used", got=sorted(set(INITS)), expected=want["initializer"][1], **d)
        need(len(INITS) % nt == 0 and len(INITS) >= nt * chains, "not every tree is initialized", got=len(INITS), **d)
    if cls == "ResidualBART":
        c = want["base_estimator"][1]
        need(np.allclose(est.data.y.unnormalized_y, Y - c), "the base estimator is not used", got=est.data.y.unnormalized_y.tolist(), expected=(Y - c).tolist(), **d)
    if cls == "OLS":
        need(set(STATS) == {want["stat_model"][1]}, "the statistical model is not used", got=STATS, **d)


def make(cls, want):
    return CLASSES[cls](**{k: build(v) for k, v in want.items()})


def unfitted(est, **d):
    need(all(getattr(est, a, None) is None for a in ("model_samples", "extract", "data", "model", "prediction_samples", "combined_chains")), "a clone carries state of a fit", **d)


def run(item):
    return globals()["run_" + item["kind"]](item)


def run_pairs(item):
    cov = Coverage()
    cls, p1 = item["cls"], item["first"]
    vals = values_of(cls)
    for v1 in vals[p1]:
        for p2 in sorted(vals):
            for v2 in vals[p2] if item["full"] or p2 in (p1,) else vals[p2][:1]:
                for cloned, fitted in itertools.product((False, True), (False, True)):
                    want = dict(base_of(cls), **{p1: v1})
                    est = make(cls, want)
                    d = dict(estimator=cls, at_construction={p1: str(v1)}, later={p2: str(v2)}, cloned=cloned, fitted_before=fitted)
                    params_ok(est, want, step="constructed", **d)
                    if fitted:
                        fit(est)
                        effects_ok(est, want, cls, step="first fit", **d)
                        params_ok(est, want, step="fitted", **d)
                    original = est
                    if cloned:
                        est = clone(original)
                        params_ok(est, want, step="cloned", **d)
                        unfitted(est, **d)
                    want2 = dict(want, **{p2: v2})
                    out = est.set_params(**{p2: build(v2)})
                    need(out is est, "set_params does not return the estimator", **d)
                    params_ok(est, want2, step="set", **d)
                    if cloned:
                        params_ok(original, want, step="original after setting the clone", **d)
                    fit(est, "isolated" if want2["n_jobs"] > 1 else "sequential")
                    effects_ok(est, want2, cls, step="second fit", **d)
                    params_ok(est, want2, step="after the second fit", **d)
                    cov.states += 1
                    cov.executions += 1
                    cov.transitions += 2 + fitted + cloned
    cov.sample({"class": cls, "parameter": p1})
    return cov


def run_sequences(item):
    """Settings changed between fits in every order, also by attribute where the value is a plain one."""
    cov = Coverage()
    cls = item["cls"]
    vals = values_of(cls)
    names = ["n_trees", "n_samples", "alpha", "sigma_b", "tree_sampler", "store_in_sample_predictions", "initializer"] + sorted(EXTRA[cls])
    for seq in itertools.permutations(names, 3 if item["full"] else 2):
        for how in ("set_params", "together", "attribute"):
            want = base_of(cls)
            est = make(cls, want)
            d = dict(estimator=cls, sequence=seq, how=how)
            if how == "together":
                want = dict(want, **{p: vals[p][0] for p in seq})
                est.set_params(**{p: build(vals[p][0]) for p in seq})
                fit(est)
                effects_ok(est, want, cls, **d)
            else:
                for p in seq:
                    want = dict(want, **{p: vals[p][0]})
                    if how == "attribute" and p not in ("tree_sampler",):
                        setattr(est, p, build(vals[p][0]))
                    else:
                        est.set_params(**{p: build(vals[p][0])})
                    params_ok(est, want, **d)
                    fit(est)
                    effects_ok(est, want, cls, after=p, **d)
                # and back
                for p in seq:
                    want = dict(want, **{p: base_of(cls)[p]})
                    est.set_params(**{p: build(base_of(cls)[p])})
                fit(est)
                effects_ok(est, want, cls, after="restored", **d)
            cov.states += 1
            cov.executions += 1
            cov.transitions += len(seq)
    return cov


def graph(o, depth=0, out=None):
    """ids of mutable objects of bartpy and this harness reachable from o."""
    out = {} if out is None else out
    if id(o) in out or depth > 6:
        return out
    if isinstance(o, (int, float, str, bool, type(None), type)) or callable(o) and not hasattr(o, "__dict__"):
        return out
    if isinstance(o, np.ndarray):
        out[id(o)] = o
        return out
    if isinstance(o, (list, tuple)):
        for x in o:
            graph(x, depth + 1, out)
        return out
    if isinstance(o, dict):
        for x in o.values():
            graph(x, depth + 1, out)
        return out
    if type(o).__module__.startswith(("bartpy", "checks")) and hasattr(o, "__dict__"):
        out[id(o)] = o
        for x in vars(o).values():
            graph(x, depth + 1, out)
    return out


def run_clones(item):
    cov = Coverage()
    cls = item["cls"]
    want = dict(base_of(cls), n_trees=2, n_chains=2, initializer=("init", "one"))
    from bartpy.samplers.unconstrainedtree.treemutation import get_tree_sampler
    for fitted, real_sampler, twice in itertools.product((False, True), repeat=3):
        est = make(cls, want)
        if real_sampler:
            est.set_params(tree_sampler=get_tree_sampler(0.3, 0.7))
        if fitted:
            fit(est)
            before = est.predict(X).copy()
        for maker in (clone, lambda e: clone(clone(e)), lambda e: type(e)(**{k: copy.deepcopy(v) for k, v in e.get_params(deep=False).items()})):
            c = maker(est)
            d = dict(estimator=cls, fitted=fitted, default_sampler=real_sampler)
            unfitted(c, **d)
            shared = set(graph(c)) & set(graph(est))
            g = graph(c)
            # samplers given by default argument to the constructors below are shared by design of those constructors: not part of the estimator's parameters
            names = sorted({type(g[i]).__name__ for i in shared} - {"NormalScalarSampler", "UniformScalarSampler"})
            need(not names, "a clone shares state with the original", shared=names, **d)
            if not real_sampler:
                params_ok(c, want, step="clone", **d)
            c.set_params(n_trees=1, alpha=0.1, n_chains=1, n_samples=1)
            need(est.n_trees == 2 and est.alpha == 0.95 and est.n_chains == 2, "setting a clone changed the original", **d)
            fit(c)
            need(len(c.model_samples) == 1 and len(c.model_samples[0].trees) == 1, "a clone does not use its own parameters", **d)
            if fitted:
                need(np.array_equal(est.predict(X), before), "fitting a clone changed the original", **d)
            else:
                unfitted(est, **d)
            cov.states += 1
            cov.executions += 1
            cov.transitions += 3
        # clones made before and after the original is changed
        c1 = clone(est)
        est.set_params(n_trees=4)
        c2 = clone(est)
        need(c1.n_trees == 2 and c2.n_trees == 4, "clones do not hold the parameters of their moment", **dict(estimator=cls))
    # fresh estimators with default arguments hold the documented defaults
    if cls == "SklearnModel":
        g = SklearnModel().get_params()
        exp = dict(n_trees=200, n_chains=4, sigma_a=0.001, sigma_b=0.001, n_samples=200, n_burn=200, thin=0.1, alpha=0.95, beta=2.0, store_in_sample_predictions=False,
                   store_acceptance_trace=False, initializer=None, n_jobs=-1)
        for k, v in exp.items():
            need(g[k] == v, "a default changed", parameter=k, got=str(g[k]), expected=str(v))
    return cov


def run_tools(item):
    """Through scikit-learn's own tools."""
    cov = Coverage()
    for n_trees in (1, 2, 3):
        pipe = Pipeline([("bart", make("SklearnModel", base_of("SklearnModel")))])
        pipe.set_params(bart__n_trees=n_trees)
        fit(pipe)
        need(len(pipe.named_steps["bart"].model_samples[0].trees) == n_trees, "a parameter set through a pipeline is not used", n_trees=n_trees)
        c = clone(pipe)
        need(c.get_params()["bart__n_trees"] == n_trees, "a parameter is lost when a pipeline is cloned", n_trees=n_trees)
        cov.states += 1
    est = make("ResidualBART", dict(base_of("ResidualBART")))
    est.set_params(base_estimator=LinearRegression())
    for flag in (False, True):
        est.set_params(base_estimator__fit_intercept=flag)
        need(est.get_params()["base_estimator__fit_intercept"] is flag, "a nested parameter is lost", value=flag)
        fit(est)
        r = Y - LinearRegression(fit_intercept=flag).fit(X, Y).predict(X)
        need(np.allclose(est.data.y.unnormalized_y, r), "a nested parameter of the base estimator is not used", value=flag)
        c = clone(est)
        need(c.get_params()["base_estimator__fit_intercept"] is flag, "a nested parameter is lost when cloned", value=flag)
        cov.states += 1
    for cls in ("SklearnModel", "ResidualBART"):
        g = GridSearchCV(make(cls, base_of(cls)), {"n_trees": [1, 3], "n_samples": [1, 2]}, cv=3, scoring="neg_mean_squared_error")
        fit(g)
        best = g.best_estimator_
        need(len(best.model_samples) == g.best_params_["n_samples"] and len(best.model_samples[0].trees) == g.best_params_["n_trees"], "the best estimator of a grid search does not use its parameters", estimator=cls)
        need({s[5] for s in STEPS} == {1, 3}, "a grid search does not try every parameter", estimator=cls)
        cov.states += 1
    for cls in CLASSES:
        est = make(cls, base_of(cls))
        try:
            est.set_params(no_such_parameter=1)
        except ValueError:
            pass
        else:
            need(False, "an unknown parameter is accepted", estimator=cls)
        cov.states += 1
    cov.executions += cov.states
    cov.transitions += cov.states
    return cov


# ------------------------------------------------------------------ selectors
SELECTORS = {"SelectSplitProportionThreshold": SelectSplitProportionThreshold, "SelectNullDistributionThreshold": SelectNullDistributionThreshold}
SEL_BASE = {"SelectSplitProportionThreshold": {"model": ("bart", 1), "percentile": 0.2},
            "SelectNullDistributionThreshold": {"model": ("bart", 1), "percentile": 0.95, "method": "local", "n_permutations": 2, "n_trees": None}}
SEL_VALUES = {"model": [("bart", 2), ("bart", 3)], "percentile": [0.0, 0.6], "method": ["global", "local"], "n_permutations": [1, 3], "n_trees": [4, 5]}
XS = np.array([[0.0, 1.0, 0.0], [1.0, 0.0, 2.0], [2.0, 3.0, 1.0], [3.0, 2.0, 3.0]])
YS = np.array([1.0, 5.0, 2.0, 4.0])


def sel_build(v):
    if isinstance(v, (tuple, list)):
        return common.fresh(n_trees=v[1], n_samples=2)
    return v


def sel_make(cls, want):
    return SELECTORS[cls](**{k: sel_build(v) for k, v in want.items()})


def sel_params_ok(sel, cls, want, fitted=False, **d):
    got = sel.get_params(deep=False)
    need(set(got) == set(want), "get_params does not list exactly the constructor parameters", got=sorted(got), expected=sorted(want), **d)
    for k, v in want.items():
        if k == "model":
            if not fitted or want.get("n_trees") is None:      # a fitted selector holds the model it fitted
                need(isinstance(got[k], SklearnModel) and got[k].n_trees == v[1], "get_params does not give back what was set", parameter=k, **d)
        else:
            need(got[k] == v and getattr(sel, k) == v, "get_params does not give back what was set", parameter=k, got=str(got[k]), expected=str(v), **d)
    deep = sel.get_params(deep=True)
    need("model__n_trees" in deep and deep["model__alpha"] == 0.95, "get_params(deep) does not list the parameters of the model", **d)


def sel_fit(sel, number=5):
    with common.Tape(number):
        out = sel.fit(XS.copy(), YS.copy())
    need(out is sel, "fit does not return the selector")
    return sel


def sel_effects_ok(sel, cls, want, **d):
    nt = want["model"][1] if want.get("n_trees") is None else want["n_trees"]
    need(all(len(s.trees) == nt for s in sel.model.model_samples), "the model or n_trees of the selector is not used", got=len(sel.model.model_samples[0].trees), expected=nt, **d)
    mask = [bool(b) for b in sel.get_support()]
    props = {int(k): float(v) for k, v in sel.feature_proportions.items()}
    if cls == "SelectSplitProportionThreshold":
        need(mask == [props[v] > want["percentile"] for v in range(3)], "the percentile of the selector is not used", got=mask, proportions=props, **d)
        return
    null = sel.null_distribution
    need(all(len(v) == want["n_permutations"] for v in null.values()), "n_permutations is not used", **d)
    rows = [[null[v][j] for v in range(3)] for j in range(want["n_permutations"])]
    for v in range(3):
        pool = [r[v] for r in rows] if want["method"] == "local" else [max(r) for r in rows]
        t = np.quantile(pool, want["percentile"])
        need(abs(sel.thresholds[v] - t) < 1e-9, "the method or percentile of the selector is not used", got=float(sel.thresholds[v]), expected=float(t), variable=v, **d)
        need(mask[v] == (props[v] > sel.thresholds[v]), "the mask does not follow the thresholds", **d)


def run_selectors(item):
    cov = Coverage()
    cls = item["cls"]
    base = SEL_BASE[cls]
    for p1, p2 in itertools.product(sorted(base), repeat=2):
        for v1 in SEL_VALUES[p1]:
            for v2 in SEL_VALUES[p2] if item["full"] else SEL_VALUES[p2][:1]:
                for cloned, fitted in itertools.product((False, True), repeat=2):
                    want = dict(base, **{p1: v1})
                    sel = sel_make(cls, want)
                    d = dict(selector=cls, at_construction={p1: str(v1)}, later={p2: str(v2)}, cloned=cloned, fitted_before=fitted)
                    sel_params_ok(sel, cls, want, step="constructed", **d)
                    if fitted:
                        mine = sel.model
                        sel_fit(sel)
                        sel_effects_ok(sel, cls, want, step="first fit", **d)
                        sel_params_ok(sel, cls, want, fitted, step="fitted", **d)
                        need(mine.model_samples is None and mine.n_trees == want["model"][1], "fitting a selector changed the caller's model", **d)
                    original = sel
                    if cloned:
                        sel = clone(original)
                        sel_params_ok(sel, cls, want, fitted, step="cloned", **d)
                        need(sel.model is not original.model and sel.model.model_samples is None and not hasattr(sel, "feature_proportions"), "a clone carries state of a fit", **d)
                        need(not set(graph(sel.model)) & set(graph(original.model)) - shared_defaults(sel.model), "a clone shares state with the original", **d)
                    want2 = dict(want, **{p2: v2})
                    need(sel.set_params(**{p2: sel_build(v2)}) is sel, "set_params does not return the selector", **d)
                    sel_params_ok(sel, cls, want2, fitted, step="set", **d)
                    if cloned:
                        sel_params_ok(original, cls, want, fitted, step="original after setting the clone", **d)
                    sel_fit(sel)
                    sel_effects_ok(sel, cls, want2, step="second fit", **d)
                    cov.states += 1
                    cov.executions += 1
                    cov.transitions += 2 + fitted + cloned
    return cov


def shared_defaults(est):
    """Samplers created once as default arguments of the constructors."""
    return {i for i, o in graph(est).items() if type(o).__name__ in ("NormalScalarSampler", "UniformScalarSampler")}


def run_selector_tools(item):
    cov = Coverage()
    cls = item["cls"]
    for nt in (1, 2, 3):
        sel = sel_make(cls, SEL_BASE[cls])
        sel.set_params(model__n_trees=nt, percentile=0.0)
        need(sel.get_params()["model__n_trees"] == nt, "a nested parameter is lost", n_trees=nt)
        c = clone(sel)
        need(c.get_params()["model__n_trees"] == nt and c.percentile == 0.0, "a nested parameter is lost when cloned", n_trees=nt)
        sel_fit(c)
        sel_effects_ok(c, cls, dict(SEL_BASE[cls], model=("bart", nt), percentile=0.0), n_trees=nt)
        pipe = Pipeline([("select", sel_make(cls, SEL_BASE[cls])), ("fit", LinearRegression())])
        pipe.set_params(select__model__n_trees=nt, select__percentile=-1.0 if cls == "SelectSplitProportionThreshold" else 0.0)
        need(clone(pipe).get_params()["select__model__n_trees"] == nt, "a parameter is lost when a pipeline is cloned", n_trees=nt)
        if cls == "SelectSplitProportionThreshold":
            with common.Tape(3):
                pipe.fit(XS, YS)
            need(all(len(s.trees) == nt for s in pipe.named_steps["select"].model.model_samples), "a parameter set through a pipeline is not used", n_trees=nt)
            need(np.allclose(pipe.predict(XS), LinearRegression().fit(XS, YS).predict(XS)), "a pipeline does not use the selected columns", n_trees=nt)
        cov.states += 1
    if cls == "SelectSplitProportionThreshold":
        g = GridSearchCV(Pipeline([("select", sel_make(cls, SEL_BASE[cls])), ("fit", LinearRegression())]), {"select__percentile": [-1.0, -2.0], "select__model__n_trees": [1, 2]}, cv=2, scoring="neg_mean_squared_error")
        with common.Tape(4):
            g.fit(XS, YS)
        best = g.best_estimator_.named_steps["select"]
        need(best.percentile == g.best_params_["select__percentile"] and len(best.model.model_samples[0].trees) == g.best_params_["select__model__n_trees"], "the best estimator of a grid search does not use its parameters")
        cov.states += 1
    else:
        for bad in ("neither", "Local", ""):
            try:
                sel_fit(sel_make(cls, dict(SEL_BASE[cls], method=bad)))
            except NotImplementedError:
                pass
            else:
                need(False, "an unknown method is accepted", method=bad)
            cov.states += 1
    cov.executions += cov.states
    cov.transitions += cov.states
    return cov

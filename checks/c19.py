"""C19: residual extensions."""
import itertools

import numpy as np
import pandas as pd
import statsmodels.api as sm
from sklearn.base import BaseEstimator, RegressorMixin, clone
from sklearn.dummy import DummyRegressor
from sklearn.linear_model import LinearRegression, Ridge
from sklearn.neighbors import KNeighborsRegressor
from sklearn.pipeline import make_pipeline
from sklearn.preprocessing import StandardScaler
from sklearn.tree import DecisionTreeRegressor

from bartpy.extensions.baseestimator import ResidualBART
from bartpy.extensions.ols import OLS

from mc import ref
from mc.backends import isolated
from mc.core import Coverage, need
from checks import big, common, streams


class Recorder(BaseEstimator, RegressorMixin):
    """Predicts a fixed odd function, remembers what it was fitted to."""

    def __init__(self, slope=2.0):
        self.slope = slope

    def fit(self, X, y):
        self.X_, self.y_ = np.array(X, dtype=float), np.array(y, dtype=float)
        return self

    def predict(self, X):
        X = np.asarray(X, dtype=float)
        return self.slope * X[:, 0] - np.abs(X).sum(axis=1) + self.y_[0]


class Weighted(sm.WLS):
    """WLS with weights that differ between the rows."""

    def __init__(self, y, X):
        super().__init__(y, X, weights=np.arange(1.0, len(np.asarray(y)) + 1.0))


class Correlated(sm.GLS):
    def __init__(self, y, X):
        n = len(np.asarray(y))
        super().__init__(y, X, sigma=0.5 * np.eye(n) + 0.5 + np.diag(np.arange(float(n))))


BASES = {"linear": lambda: LinearRegression(), "no intercept": lambda: LinearRegression(fit_intercept=False), "ridge": lambda: Ridge(alpha=3.0),
         "tree": lambda: DecisionTreeRegressor(max_depth=1, random_state=0), "exact": lambda: DecisionTreeRegressor(random_state=0),
         "mean": lambda: DummyRegressor(), "constant": lambda: DummyRegressor(strategy="constant", constant=1e3), "nearest": lambda: KNeighborsRegressor(1),
         "pipeline": lambda: make_pipeline(StandardScaler(), LinearRegression()), "recorder": lambda: Recorder(3.0)}

DATA = [
    (np.array([[0.0, 1.0], [1.0, 0.0], [2.0, 1.0], [3.0, 3.0]]), np.array([3.0, -1.0, 10.0, 2.0])),
    (np.array([[5.0], [1.0], [2.0]]), np.array([100.0, 300.0, 250.0])),
    (np.array([[5.0, 2.0, 0.0], [1.0, 4.0, 1.0], [2.0, 0.0, 0.5], [2.0, 0.0, 0.5], [7.0, 1.0, 1.0]]), np.array([1e-3, 5e-3, 2e-3, 0.0, 1e-3])),
    (np.array([[2.0], [2.0]]), np.array([4.0, 4.0])),
    (np.array([[1.0, 1.0]]), np.array([4.0])),
    (np.array([[0.0, 1.0], [1.0, 2.0], [2.0, 3.0]]), np.array([1.0, 2.0, 3.0])),        # exactly linear: nothing is left for BART
    big.data("tall"),
]
OPS = ["fit 0", "fit 2", "fit 5", "other 2", "frame 0", "predict", "clone"]


def items(tier):
    q = tier == "quick"
    out = []
    for b in BASES:
        for i in range(len(DATA)):
            out.append({"kind": "one", "base": b, "data": i})
        out.append({"kind": "seq", "base": b, "depth": 2 if q else 3})
    for i in range(len(DATA)):
        for m in ("OLS", "WLS", "GLS", "Weighted", "Correlated"):
            out.append({"kind": "ols", "model": m, "data": i})
    return out


def bounds(tier):
    return {"base models": sorted(BASES) + ["statsmodels OLS, WLS, GLS, WLS with weights, GLS with correlations"], "data sets": len(DATA), "chains": [1, 2], "predictions stored": [True, False],
            "user's estimator": ["new", "fitted before on other data"], "execution": ["sequential", "isolated as in worker processes"],
            "sequences": "all of %s up to length %d" % (OPS, 2 if tier == "quick" else 3)}


def tol(y):
    return 1e-8 * (1.0 + float(np.max(np.abs(y))))


def eq(a, b, y, message, **d):
    a, b = np.asarray(a, dtype=float).ravel(), np.asarray(b, dtype=float).ravel()
    need(a.shape == b.shape and bool(np.all(np.abs(a - b) <= tol(y) + 1e-9 * np.abs(b))), message, got=a.tolist(), expected=b.tolist(), **d)


def queries(X):
    return np.concatenate([X, np.clip(ref.grid(X, cap=60), -50, 50)])


def plain(X, r, kw, how):
    streams.reset()
    e = streams.make(**kw)
    if how == "isolated":
        with isolated():
            return e.fit(X, r)
    return e.fit(X, r)


def compare(est, base_predict, bart, X, y, **d):
    Q = queries(X)
    eq(est.predict(Q), base_predict(Q) + bart.predict(Q), y, "prediction is not base model plus BART on the base model's residuals", **d)
    eq(est.predict(pd.DataFrame(Q)), base_predict(Q) + bart.predict(Q), y, "prediction for a frame differs", **d)
    want = base_predict(X) + bart.predict(X)
    eq(est.predict(X), want, y, "prediction on the training rows is wrong", **d)
    eq(est.predict(), want, y, "prediction without rows is not the one for the training rows", **d)
    eq(est.residuals(), y - want, y, "training residuals are not target minus prediction", **d)
    eq(est.residuals(X), y - want, y, "residuals of the training rows are not target minus prediction", **d)
    eq(est.l2_error(X), (y - want) ** 2, y * y, "squared errors of the training rows are wrong", **d)
    eq(est.residuals(X, y), y - want, y, "residuals are not target minus prediction", **d)
    eq(est.l2_error(X, y), (y - want) ** 2, y * y, "squared errors are wrong", **d)
    eq(est.l2_error(), (y - want) ** 2, y * y, "training squared errors are wrong", **d)
    # rows do not influence each other
    eq([float(np.ravel(est.predict(Q[i:i + 1]))[0]) for i in range(min(4, len(Q)))], (base_predict(Q) + bart.predict(Q))[:4], y, "rows influence each other", **d)


def sane(est):
    return {k: repr(v) for k, v in vars(est).items()}


def run(item):
    return {"one": run_one, "seq": run_seq, "ols": run_ols}[item["kind"]](item)


def run_one(item):
    cov = Coverage()
    X, y = DATA[item["data"]]
    for chains, store, prefit, how in itertools.product((1, 2), (True, False), (False, True), ("sequential", "isolated")):
        kw = dict(n_chains=chains, store_in_sample_predictions=store, n_jobs=1 if how == "sequential" else 2)
        user = BASES[item["base"]]()
        other = (np.array([[0.0] * X.shape[1], [9.0] * X.shape[1]]), np.array([7.0, -7.0]))
        if prefit:
            user.fit(*other)
            uq = user.predict(queries(X)).copy()
        before = sane(user)
        d = dict(base=item["base"], data=X.tolist(), target=y.tolist(), chains=chains, store=store, fitted_before=prefit, run=how)
        streams.reset()
        est = streams.make(cls=ResidualBART, base_estimator=user, **kw)
        Xc, yc = X.copy(), y.copy()
        if how == "isolated":
            with isolated():
                out = est.fit(Xc, yc)
        else:
            out = est.fit(Xc, yc)
        need(out is est, "fit does not return the estimator", **d)
        need(np.array_equal(Xc, X) and np.array_equal(yc, y), "fitting changed the caller's data", **d)
        if prefit:
            need(np.array_equal(user.predict(queries(X)), uq), "the user's estimator was fitted again", **d)
        need(sane(user) == before, "the user's estimator was altered", before=before, after=sane(user), **d)
        base = clone(user).fit(X, y)
        bart = plain(X, y - base.predict(X), kw, how)
        # changing the user's estimator or data afterwards does not matter
        user.fit(*other)
        if item["base"] == "linear" and how == "sequential" and not prefit:
            X3 = X.copy()
            streams.reset()
            est3 = streams.make(cls=ResidualBART, base_estimator=BASES["linear"](), **kw)
            for y3 in (y, y * -2 + 1, y[::-1] * 1.0):
                streams.reset()
                est3.fit(X3, y3.copy())
                base3 = LinearRegression().fit(X, y3)
                compare(est3, base3.predict, plain(X, y3 - base3.predict(X), kw, how), X, y3, refit="same array", **d)
        if item["base"] != "nearest":        # scikit-learn's neighbours keep a view of their training data
            Xc[...], yc[...] = 77.0, -77.0
        compare(est, base.predict, bart, X, y, **d)
        if item["base"] == "recorder":
            b = est.base_estimator
            need(np.array_equal(b.X_, X) and np.array_equal(b.y_, y), "the base model was fitted to something else", **d)
        # the BART part sees the residuals
        eq(est.data.y.unnormalized_y, y - base.predict(X), y, "BART was fitted to something else than the residuals of the base model", **d)
        streams.reset()
        est2 = streams.make(cls=ResidualBART, base_estimator=BASES[item["base"]](), **dict(kw, n_jobs=1))
        bart1 = plain(X, y - base.predict(X), dict(kw, n_jobs=1), "sequential")
        streams.reset()
        eq(est2.fit_predict(X.copy(), y.copy()), base.predict(X) + bart1.predict(X), y, "fit_predict differs", **d)
        cov.states += 1
        cov.executions += 2
        cov.transitions += 4
    if item["base"] == "linear":
        streams.reset()
        est = streams.make(cls=ResidualBART).fit(X, y)
        base = LinearRegression().fit(X, y)
        bart = plain(X, y - base.predict(X), {}, "sequential")
        compare(est, base.predict, bart, X, y, base="default", data=X.tolist())
    cov.sample({"base": item["base"], "data": X.tolist()})
    return cov


def run_seq(item):
    """Two estimators built on one user's estimator; all sequences of fits, predictions and clones."""
    cov = Coverage()
    for seq in itertools.product(OPS, repeat=item["depth"]):
        for first in (0, 1, 2):         # 2: one estimator gets everything
            user = BASES[item["base"]]()
            before = sane(user)
            given = []          # other base models handed over later
            ests = [streams.make(cls=ResidualBART, base_estimator=user, n_trees=1, n_samples=2) for _ in range(2)]
            cur = [None, None]
            d = dict(base=item["base"], sequence=seq, first=first)
            for j, op in enumerate(seq):
                e = (first + j) % 2 if first < 2 else 0
                if op.startswith("other"):
                    new = BASES[item["base"]]()
                    given.append((new, sane(new)))
                    ests[e].set_params(base_estimator=new)
                if op.startswith("other") or op.startswith("fit") or op.startswith("frame"):
                    X, y = DATA[int(op[-1])]
                    streams.reset()
                    ests[e].fit(pd.DataFrame(X, columns=["c%d" % i for i in range(X.shape[1])]) if op.startswith("frame") else X.copy(), y.copy())
                    cur[e] = int(op[-1])
                elif op == "clone":
                    c = clone(ests[e])
                    need(c.model_samples is None and c.base_estimator is not ests[e].base_estimator, "a clone shares the base model", **d)
                    X, y = DATA[0]
                    streams.reset()
                    c.schedule.leaf_sampler, c.schedule.sigma_sampler = ests[e].schedule.leaf_sampler, ests[e].schedule.sigma_sampler
                    c.fit(X, y)
                    base = BASES[item["base"]]().fit(X, y)
                    bart = plain(X, y - base.predict(X), dict(n_trees=1, n_samples=2), "sequential")
                    compare(c, base.predict, bart, X, y, step="clone", **d)
                elif cur[e] is not None:
                    ests[e].predict()
                for k in range(2):
                    if cur[k] is not None:
                        X, y = DATA[cur[k]]
                        base = BASES[item["base"]]().fit(X, y)
                        bart = plain(X, y - base.predict(X), dict(n_trees=1, n_samples=2), "sequential")
                        compare(ests[k], base.predict, bart, X, y, step=op, estimator=k, **d)
                need(sane(user) == before and all(sane(g) == b for g, b in given), "the user's estimator was altered", **d)
                cov.transitions += 1
            cov.states += 1
            cov.executions += 1
    return cov


def run_ols(item):
    cov = Coverage()
    X, y = DATA[item["data"]]
    SM = globals().get(item["model"]) if item["model"] in ("Weighted", "Correlated") else getattr(sm, item["model"])
    for chains, store, how in itertools.product((1, 2), (True, False), ("sequential", "isolated")):
        kw = dict(n_chains=chains, store_in_sample_predictions=store, n_jobs=1 if how == "sequential" else 2)
        d = dict(model=item["model"], data=X.tolist(), chains=chains, store=store, run=how)
        streams.reset()
        est = streams.make(cls=OLS, stat_model=SM, **kw)
        Xc, yc = X.copy(), y.copy()
        if how == "isolated":
            with isolated():
                est.fit(Xc, yc)
        else:
            est.fit(Xc, yc)
        need(np.array_equal(Xc, X) and np.array_equal(yc, y), "fitting changed the caller's data", **d)
        base = SM(y, X).fit()
        resid = y - base.predict(X)
        bart = plain(X, base.resid, kw, how)
        eq(est.data.y.unnormalized_y, resid, y, "BART was fitted to something else than the residuals of the base model", **d)
        compare(est, lambda Q: np.asarray(base.predict(Q)), bart, X, y, **d)
        # again with the same covariate array and another target
        for y2 in (y * -2 + 1, y[::-1] * 1.0, y):
            streams.reset()
            if how == "sequential":
                est.fit(Xc, y2.copy())
                b2 = SM(y2, X).fit()
                compare(est, lambda Q: np.asarray(b2.predict(Q)), plain(X, b2.resid, kw, how), X, y2, refit="same array", **d)
        # again on other data of any shape
        for k in (1, 0):
            X2, y2 = DATA[k]
            streams.reset()
            if how == "sequential":
                est.fit(X2.copy(), y2.copy())
                b2 = SM(y2, X2).fit()
                compare(est, lambda Q: np.asarray(b2.predict(Q)), plain(X2, b2.resid, kw, how), X2, y2, refit=k, **d)
        cov.states += 1
        cov.executions += 1
        cov.transitions += 3
    return cov

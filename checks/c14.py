"""C14: fitted predictions are the mean over all stored samples on the original scale."""
import numpy as np
import pandas as pd

from bartpy.node import LeafNode
from bartpy.sklearnmodel import SklearnModel

from mc import real, ref
from mc.backends import isolated
from mc.core import Coverage, close, explore, need
from mc.rng import Controller
from checks import big, common

DATA = [([[0, 1, 2], [1, 0, 1]], [3.0, -1.0, 10.0]), ([[0, 1]], [5.0, 5.5]), ([[2, 0, 1, 3]], [1e4, 2e4, 1.5e4, -1e4]), ([[0, 0], [0, 1]], [0.0, 0.001]),
        ([[0, 1, 0]], [4.0, 4.0, 4.0])]


class Script:
    """Tree sampler that explores moves; records the state of the model at the end of every sweep through Sig."""

    def __init__(self, ch, X, short):
        self.ch, self.X, self.short = ch, X, short

    def step(self, model, tree):
        mv = [m[:4] for m in ref.moves(real.canon(tree), self.X)]
        if self.short:
            mv = [m for m in mv if m[0] == "grow"][:1] + [m for m in mv if m[0] == "prune"][:1]
        k = self.ch.pick(1 + len(mv))
        return None if k == 0 else real.do(tree, mv[k - 1])


class Lcg:
    def __init__(self):
        self.r = big.lcg(9)

    def pick(self, n):
        return self.r(n)


class Leaf:
    def __init__(self):
        self.n = 0

    def step(self, model, node):
        self.n += 1
        # the occasional value far outside the range of the targets
        node.set_value(0.07 * ((self.n * 7) % 11 - 5) if self.n % 6 else (-1) ** (self.n // 6) * 4000.0)
        return node.current_value


class Sig:
    def __init__(self):
        self.states = []

    def step(self, model, sigma):
        sigma.set_value(1.0)
        st = []
        for t in model.trees:
            idx = real.index(t)
            st.append((real.canon(t), {p: float(n.current_value) for p, n in idx.items() if type(n) == LeafNode}))
        self.states.append(st)
        return 1.0


def items(tier):
    q = tier == "quick"
    out = []
    for i in range(len(DATA)):
        for sp in (True, False):
            out.append({"kind": "script", "data": i, "nt": 1, "chains": 1, "n": 2, "burn": 0, "thin": 1.0, "sp": sp, "short": False})
            out.append({"kind": "script", "data": i, "nt": 2, "chains": 1, "n": 2, "burn": 0, "thin": 1.0, "sp": sp, "short": i != 1})
            out.append({"kind": "script", "data": i, "nt": 1, "chains": 2, "n": 2, "burn": 1, "thin": 1.0, "sp": sp, "short": True})
            out.append({"kind": "script", "data": i, "nt": 1, "chains": 3, "n": 1, "burn": 0, "thin": 1.0, "sp": sp, "short": True})
            out.append({"kind": "script", "data": i, "nt": 1, "chains": 2, "n": 3, "burn": 0, "thin": 0.5, "sp": sp, "short": True})
            out.append({"kind": "real", "data": i, "sp": sp})
            if not q:
                out.append({"kind": "script", "data": i, "nt": 2, "chains": 2, "n": 2, "burn": 0, "thin": 1.0, "sp": sp, "short": True})
                out.append({"kind": "script", "data": i, "nt": 2, "chains": 1, "n": 3, "burn": 0, "thin": 1.0, "sp": sp, "short": True})
                out.append({"kind": "script", "data": i, "nt": 3, "chains": 1, "n": 2, "burn": 0, "thin": 1.0, "sp": sp, "short": True})
    out += [{"kind": "long", "data": i, "n": n, "chains": c, "sp": sp} for i, n, c, sp in ((0, 300, 1, True), (2, 60, 12, True), (1, 1100, 1, False), (0, 520, 2, True))]
    out += [{"kind": "big", "name": n, "nt": nt, "sp": sp} for n in big.MORE for nt, sp in ((3, True), (12, False))]
    return out


def bounds(tier):
    return {"runs": "every pattern of moves, 1-2 trees, 1-3 chains, 1-3 samples, thin 1 and 0.5", "rows": "grid of query rows, as array, "
            "integer array, DataFrame with foreign index, Fortran order, one by one and reversed", "long": "1 to 12 chains of up to 1100 samples, queries of up to 20011 rows, rows of other number types", "large": "3 chains of 14 samples, 3 and 12 trees, on %s" % big.MORE, "real samplers": "short runs with fixed draws, also isolated as in worker processes"}


def value_of(states, row):
    total = 0.0
    for t, vals in states:
        total += vals[ref.route(t, row)]
    return total


def run(item):
    cov = Coverage()
    if item["kind"] == "big":
        return run_big(item, cov)
    cols, y = DATA[item["data"]]
    X, y = ref.matrix(cols, 1), np.array(y)
    if item["kind"] == "long":
        sig = Sig()
        est = SklearnModel(n_trees=1, n_chains=item["chains"], n_samples=item["n"], n_burn=1, thin=1.0, n_jobs=1, store_in_sample_predictions=item["sp"],
                           tree_sampler=Script(Lcg(), X, False))
        est.schedule.leaf_sampler, est.schedule.sigma_sampler = Leaf(), sig
        est.fit(X, y)
        per = item["n"] + 1
        keep = [s for i, s in enumerate(sig.states) if i % per]
        need(len(keep) == len(est.model_samples) == item["n"] * item["chains"], "wrong number of stored samples", got=len(est.model_samples))
        check(est, X, y, keep, item["sp"], dict(settings=item), None, ref.grid(X, cap=6))
        cov.states += len(keep)
        cov.executions += 1
        cov.transitions += per * item["chains"]
        return cov
    if item["kind"] == "real":
        return run_real(X, y, item, cov)

    def one(ch):
        sig = Sig()
        est = SklearnModel(n_trees=item["nt"], n_chains=item["chains"], n_samples=item["n"], n_burn=item["burn"], thin=item["thin"], n_jobs=1,
                           store_in_sample_predictions=item["sp"], tree_sampler=Script(ch, X, item["short"]))
        est.schedule.leaf_sampler, est.schedule.sigma_sampler = Leaf(), sig
        how = len(ch.choices) % 3
        d = dict(data=X.tolist(), y=y.tolist(), settings=item)
        out = est.fit_predict(X, y) if how else None
        if how == 0:
            need(est.fit(X, y) is est, "fit does not return the estimator", **d)
        per = item["n"] + item["burn"]
        keep = []
        for c in range(item["chains"]):
            for s in range(item["n"]):
                if item["thin"] == 1.0 or s % 2 == 0:
                    keep.append(sig.states[c * per + item["burn"] + s])
        check(est, X, y, keep, item["sp"], dict(d, choices=ch.choices), out)
        return True
    for ch, _ in explore(one):
        cov.states += 1
        cov.executions += 1
        cov.transitions += len(ch.choices)
    cov.sample({"data": X.tolist(), "settings": {k: v for k, v in item.items()}})
    return cov


def check(est, X, y, keep, sp, d, out, G=None):
    lo, rng = y.min(), y.max() - y.min()

    def want(rows):
        m = np.array([np.mean([value_of(s, r) for s in keep]) for r in rows])
        return lo + (m + 0.5) * rng if rng > 0 else np.full(len(rows), lo)
    tol = 1e-9 * (1 + np.abs(y).max())
    G = ref.grid(X, cap=24) if G is None else G
    G = np.vstack([G, X, X[::-1]])
    e = want(G)

    def same(got, exp, what):
        got = np.asarray(got, dtype=float)
        need(got.shape == exp.shape and np.all(np.abs(got - exp) <= tol + 1e-11 * np.abs(exp)), what, got=got.tolist(), expected=exp.tolist(), **d)
    same(est.predict(G), e, "prediction is not the mean over all stored samples on the original scale")
    same(est.predict(G[::-1]), e[::-1], "prediction depends on the order of rows")
    few = range(len(G)) if len(G) < 400 else list(range(0, len(G), len(G) // 60)) + [len(G) - 1]
    same(np.concatenate([est.predict(G[i:i + 1]) for i in few]), e[list(few)], "prediction of a row depends on the other rows")
    same(est.predict(pd.DataFrame(G, index=range(100, 100 + len(G)), columns=["c%d" % (9 - j) for j in range(G.shape[1])])), e, "prediction for a DataFrame differs")
    same(est.predict(np.asfortranarray(G)), e, "prediction depends on the memory layout")
    B = G.copy()
    F, views = pd.DataFrame(B.copy()), B[:, :]
    for order in (slice(None), slice(None, None, -1)):
        B[:] = G[order]
        F.iloc[:, :] = G[order]
        for rows in (B, F, views):
            same(est.predict(rows), e[order], "prediction for an array or frame changed in place is not that of its rows")
        same(est.residuals(B, e[order]), 0 * e, "residuals for an array changed in place are not target minus prediction")
    Gi = np.floor(np.clip(G, -1000, 1000)).astype(int)
    same(est.predict(Gi), want(Gi.astype(float)), "prediction for integer rows differs")
    for rows, exact in big.other_types(np.vstack([X, G[:8]]), X):
        same(est.predict(rows), want(exact), "prediction for rows of type %s differs" % rows.dtype)
    ex = want(X)
    if out is not None:
        same(out, ex, "fit_predict is not the prediction for the training rows")
    if sp:
        same(est.predict(), ex, "training prediction differs from predicting the training rows")
        same(est.residuals(), y - ex, "training residuals are not target minus prediction")
        same(est.l2_error(), (y - ex) ** 2, "squared errors are not the squares of the residuals")
    else:
        try:
            est.predict()
        except ValueError:
            pass
        else:
            need(False, "training prediction without stored predictions is not refused", **d)
    same(est.residuals(X), y - ex, "residuals of the training rows are not target minus prediction")
    same(est.residuals(G, np.zeros(len(G))), -e, "residuals are not target minus prediction")
    same(est.residuals(X, ex), ex - ex, "residuals are not target minus prediction")
    other = np.linspace(-2, 3, len(G)) * (1 + rng)
    same(est.residuals(G, other), other - e, "residuals are not target minus prediction")
    same(est.l2_error(X), (y - ex) ** 2, "squared errors are not the squares of the residuals")
    # the squares of large residuals carry rounding
    g = np.asarray(est.l2_error(G, other), dtype=float)
    need(np.allclose(g, (other - e) ** 2, rtol=1e-8, atol=tol), "squared errors are not the squares of the residuals", **d)


def run_big(item, cov):
    """Longer chains on larger data."""
    X, y = big.data(item["name"])
    y = y * 40 + 1000
    est = common.fresh(n_trees=item["nt"], n_chains=3, n_samples=14, n_burn=2, store_in_sample_predictions=item["sp"])
    with common.Tape(5 + item["nt"], us=(0.02, 0.6, 0.98)):
        est.fit(X, y)
    need(len(est.model_samples) == 42, "wrong number of stored samples", got=len(est.model_samples))
    keep = [st for st, _ in common.states_of(est)]
    check(est, X, y, keep, item["sp"], dict(data=item["name"], trees=item["nt"]), None, big.queries(X, 12)[-40:])
    G = big.queries(X, 12)[-40:]
    e = est.predict(G)
    for rows in (64, 1001, 4097, 20011):
        k = [(i * 7) % len(G) for i in range(rows)]
        got = est.predict(G[k])
        need(got.shape == (rows,) and np.allclose(got, e[k], rtol=1e-12), "prediction of a row depends on the number of rows", rows=rows, data=item["name"])
        need(np.allclose(est.predict(pd.DataFrame(G[k])), e[k], rtol=1e-12), "prediction of a row depends on the number of rows", rows=rows, data=item["name"])
    cov.states += 42
    cov.executions += 1
    cov.transitions += 48
    cov.outcomes.add(max(len(p) for st in keep for _, v in st for p in v))
    return cov


def run_real(X, y, item, cov):
    """Real samplers, fixed draws of several kinds; the stored samples are evaluated by the reference."""
    for u in (0.001, 0.4, 0.97):
        for chains in (1, 2):
            for iso in (False, True):
                est = SklearnModel(n_trees=2, n_chains=chains, n_samples=4, n_burn=1, thin=1.0, n_jobs=2 if iso else 1, store_in_sample_predictions=item["sp"])
                k = [0]

                def pick(n, w=None, what=""):
                    k[0] += 1
                    return k[0] % n if not w or w[k[0] % n] > 0 else [i for i in range(n) if w[i] > 0][0]
                zs = [0]

                def z():
                    zs[0] += 1
                    return ((zs[0] * 37) % 19 - 9) / 5.0
                with Controller(pick=pick, u=u, z=z, g=1.0):
                    if iso:
                        with isolated():
                            est.fit(X, y)
                    else:
                        est.fit(X, y)
                need(len(est.model_samples) == 4 * chains, "wrong number of stored samples", got=len(est.model_samples))
                keep = []
                for m in est.model_samples:
                    st = []
                    for t in m.trees:
                        idx = real.index(t)
                        st.append((real.canon(t), {p: float(n.current_value) for p, n in idx.items() if type(n) == LeafNode}))
                    keep.append(st)
                check(est, X, y, keep, item["sp"], dict(data=X.tolist(), y=y.tolist(), run="isolated" if iso else "sequential"), None)
                cov.states += 1
                cov.executions += 1
                cov.transitions += 5 * chains
    return cov

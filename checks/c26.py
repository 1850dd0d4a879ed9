"""C26: degenerate data end to end."""
import itertools

import numpy as np
import pandas as pd

from bartpy.initializers.sklearntreeinitializer import SklearnTreeInitializer
from bartpy.samplers.oblivioustrees.treemutation import get_tree_sampler as oblivious_sampler
from bartpy.sklearnmodel import SklearnModel

from mc import real, ref
from mc.core import Coverage, Violation, explore, need
from mc.rng import Controller
from checks import big, common

LEVELS = [0.0, 1.0, -2.5]
SCALES = [(1.0, 0.0), (1e-9, 0.0), (1e6, -3e6), (1.0, 1e6), (1e100, 0.0), (1e-150, 0.0)]


def items(tier):
    q = tier == "quick"
    out = []
    shapes = [(1, 1, 1), (2, 1, 1), (3, 1, 1), (1, 2, 1), (2, 2, 1), (3, 2, 3 if q else 1), (4, 1, 3 if q else 1), (1, 3, 1), (2, 3, 3 if q else 1)]
    if not q:
        shapes += [(4, 2, 53), (5, 1, 11), (3, 3, 211)]
    for cols, shift in common.datasets(tier, shapes):
        out.append({"kind": "fit", "cols": cols, "shift": shift, "q": q})
    for cols, shift in common.datasets(tier, [(1, 1, 1), (2, 1, 1), (3, 1, 2), (2, 2, 2), (3, 2, 29)]):
        out.append({"kind": "moves", "cols": cols, "shift": shift, "dev": 3 if q else 5})
    out += [{"kind": "scales", "which": i} for i in range(len(SCALES))]
    out += [{"kind": "empty"}, {"kind": "plain"}]
    out += [{"kind": "big", "name": n, "count": 2 if q else 8} for n in big.MORE]
    return out


def bounds(tier):
    return {"covariates": "all covariate orders of 1-3 rows x 1 column, 1-2 rows x 2, 1 row x 3; parts of 4x1, 3x2, 2x3 (thorough: all of these, parts of 4x2, 5x1, 3x3)",
            "targets": "all over the levels %s (every 3rd for 4 rows), scaled and shifted by %s" % (LEVELS, SCALES),
            "draws": "moderate and extreme streams; on the smallest data all outcomes of moves up to 3 deviations", "larger": "data sets of %s, 5 trees, 10 sweeps, %d streams" % (big.MORE, 2 if tier == "quick" else 8), "options": ["trees 1-3", "chains 1-2", "predictions stored or not", "initializer", "oblivious sampler", "DataFrame", "integers"]}


def run(item):
    return globals()["run_" + item["kind"]](item)


def extreme(number):
    """Draws at the ends of their ranges."""
    base = common.Tape(number)
    st = [number]
    zs, us, gs = [-6.0, 0.0, 6.0, 3.0], [1e-300, 0.5, 1 - 1e-16, 0.999], [1e-3, 1.0, 20.0]

    def nxt(seq):
        st[0] = (st[0] * 1103515245 + 12345) % (1 << 31)
        return seq[(st[0] >> 10) % len(seq)]
    return Controller(pick=base._pick, z=lambda: nxt(zs), u=lambda: nxt(us), g=lambda shape: shape * nxt(gs))


def check_fit(est, X, y, cov, split_rule=True, **d):
    d = dict(d, data=X.tolist(), target=np.asarray(y).tolist())
    G = ref.grid(X, cap=40)
    p = np.asarray(est.predict(G), dtype=float)
    need(p.shape == (len(G),) and np.all(np.isfinite(p)), "a prediction is not finite", got=p.tolist(), **d)
    t = np.asarray(est.predict(X), dtype=float)
    need(t.shape == (len(X),) and np.all(np.isfinite(t)), "a training prediction is not finite", got=t.tolist(), **d)
    if est.store_in_sample_predictions:
        s = np.asarray(est.predict(), dtype=float)
        need(s.shape == (len(X),) and np.all(np.isfinite(s)), "a stored training prediction is not finite", got=s.tolist(), **d)
    if len(set(np.asarray(y).tolist())) == 1:
        c = float(y[0])
        need(np.allclose(p, c, rtol=1e-12, atol=0) and np.allclose(t, c, rtol=1e-12, atol=0), "a constant target is not predicted", got=p.tolist()[:5], expected=c, **d)
        if est.store_in_sample_predictions:
            need(np.allclose(est.predict(), c, rtol=1e-12, atol=0), "a constant target is not predicted in sample", **d)
    need(len(est.model_samples) > 0, "no samples", **d)
    for m in est.model_samples:
        need(np.isfinite(m.sigma.current_value()) and m.sigma.current_value() > 0 or len(set(np.asarray(y).tolist())) == 1, "a noise level is not positive and finite", got=float(m.sigma.current_value()), **d)
        for tree in m.trees:
            if not split_rule:
                continue
            c = real.canon(tree)
            for path, sub, rows, _ in ref.walk(c, X):
                need(len(rows) > 0, "a tree was split where no rows differ", tree=c, path=path, **d)
            cov.outcomes.add((len(X), sum(1 for _, s_, _, _ in ref.walk(c, X) if s_ is not None)))
    cov.states += 1
    cov.executions += 1


def targets(n, q):
    ys = list(itertools.product(LEVELS, repeat=n))
    if n >= 4:
        ys = ys[::3 if n == 4 else 11] + [tuple([2.0] * n)]
    return [np.array(y) for y in ys]


def options(i):
    return [dict(n_trees=1, n_chains=1, store_in_sample_predictions=True), dict(n_trees=2, n_chains=2, store_in_sample_predictions=False),
            dict(n_trees=3, n_chains=1, store_in_sample_predictions=True)][i % 3]


def run_fit(item):
    cov = Coverage()
    X = ref.matrix(item["cols"], item["shift"])
    n = len(X)
    for i, y in enumerate(targets(n, item["q"])):
        kw = dict(options(i), n_samples=2, n_burn=1)
        est = common.fresh(**kw)
        with (common.Tape(i + 1) if i % 2 else extreme(i + 1)):
            est.fit(X.copy(), y.copy())
        check_fit(est, X, y, cov, options=str(kw))
        cov.transitions += 3 * kw["n_trees"] * kw["n_chains"]
        if i % 4 == 0:
            for what in ("initializer", "oblivious", "frame", "int"):
                kw = dict(options(i + 1), n_samples=2, n_burn=1)
                Xa, ya = X.copy(), y.copy()
                if what == "initializer":
                    kw["initializer"] = SklearnTreeInitializer()
                    Xa = np.clip(Xa, -1e6, 1e6)
                elif what == "oblivious":
                    kw["tree_sampler"] = oblivious_sampler(0.5, 0.5)
                elif what == "frame":
                    Xa = pd.DataFrame(Xa, index=["r%d" % j for j in range(n)])
                else:
                    Xa = np.round(Xa).astype(int)
                    ya = np.round(ya * 2).astype(int)
                est = common.fresh(**kw)
                with common.Tape(i + 7):
                    est.fit(Xa, ya)
                check_fit(est, np.asarray(Xa, dtype=float), ya, cov, split_rule=what not in ("oblivious", "initializer"), what=what, options=str({k: v for k, v in kw.items() if k[0] == "n"}))
    cov.sample({"data": X.tolist()})
    return cov


def run_big(item):
    """Many rows, many columns, many ties; several trees and longer chains."""
    cov = Coverage()
    X, y0 = big.data(item["name"])
    n = len(X)
    for y in (y0, np.full(n, -3.25), (np.arange(n) == n - 1).astype(float), np.where(np.arange(n) % 2, 1e6, -1e6)):
        for k in range(item["count"]):
            for what in ("plain", "extreme", "initializer", "oblivious", "frame"):
                if what == "initializer" and item["name"] in ("ends", "ints"):        # scikit-learn refuses numbers beyond float32
                    continue
                kw = dict(n_trees=5, n_samples=6, n_burn=4, n_chains=1 + k % 2, store_in_sample_predictions=k % 2 == 0)
                if what == "initializer":
                    kw["initializer"] = SklearnTreeInitializer()
                if what == "oblivious":
                    kw["tree_sampler"] = oblivious_sampler(0.5, 0.5)
                est = common.fresh(**kw)
                with (extreme(k + 3) if what == "extreme" else common.Tape(k + 3)):
                    est.fit(pd.DataFrame(X) if what == "frame" else X.copy(), y.copy())
                check_fit(est, X, y, cov, split_rule=what not in ("oblivious", "initializer"), what=what, stream=k + 3)
                cov.transitions += 50 * kw["n_chains"]
    return cov


def run_moves(item):
    cov = Coverage()
    X = ref.matrix(item["cols"], item["shift"])
    n = len(X)
    ys = [ref.targets(n), np.full(n, 3.5), np.array([float(i == 0) for i in range(n)])]
    for y in ys:
        for u in (1e-6, 0.9):
            def path(ch):
                est = common.fresh(n_trees=1, n_samples=3, store_in_sample_predictions=True)
                with Controller(pick=ch.pick, u=u, z=0.7, g=1.0, retry=True):
                    est.fit(X.copy(), y.copy())
                return est
            for ch, est in explore(path, limit=60, max_deviations=item["dev"]):
                if ch.truncated:
                    cov.truncated += 1
                    continue
                check_fit(est, X, y, cov, choices=ch.choices, u=u)
                cov.transitions += len(ch.trace)
    return cov


def run_scales(item):
    cov = Coverage()
    a, b = SCALES[item["which"]]
    for n, p in ((1, 1), (2, 1), (3, 1), (3, 2)):
        for cols in ref.rank_matrices(n, p)[:40]:
            X0 = np.array([[TAB[r] for r in c] for c in cols], dtype=float).T
            X = X0 * a + b
            for y0 in targets(n, True)[::2] + [np.full(n, 1.0)]:
                for y in (y0 * a + b, y0):
                    for xx in (X, X0):
                        if xx is X0 and y is y0:
                            continue
                        est = common.fresh(n_trees=2, n_samples=2, store_in_sample_predictions=True)
                        with common.Tape(n + 3):
                            est.fit(xx.copy(), y.copy())
                        check_fit(est, xx, y, cov, scale=a, shift=b)
                        cov.transitions += 4
    return cov


TAB = [0.0, 1.0, 2.0, 4.0]


def run_empty(item):
    cov = Coverage()
    for shape in ((0, 1), (0, 3), (1, 0), (3, 0), (0, 0)):
        for frame in (False, True):
            for chains in (1, 2):
                X = np.zeros(shape)
                if frame:
                    X = pd.DataFrame(X)
                est = common.fresh(n_trees=1, n_chains=chains, n_samples=1)
                try:
                    est.fit(X, np.zeros(shape[0]))
                except ValueError:
                    pass
                else:
                    raise Violation("an empty covariate matrix was accepted", shape=shape, frame=frame)
                cov.states += 1
                cov.executions += 1
    return cov


def run_plain(item):
    """The estimator as shipped, with its shared prefetching samplers."""
    cov = Coverage()
    for seed, (n, p) in enumerate(((1, 1), (2, 1), (3, 1), (2, 2), (4, 2), (6, 3))):
        for kind in range(4):
            rs = np.random.RandomState(seed)
            X = [np.zeros((n, p)), np.arange(n * p).reshape(n, p).astype(float), np.repeat(np.arange(p)[None, :], n, 0).astype(float), rs.randint(0, 2, (n, p)).astype(float)][kind]
            for y in (np.zeros(n), np.full(n, -7.25), np.arange(n).astype(float), rs.normal(size=n)):
                est = SklearnModel(n_trees=4, n_chains=2, n_samples=10, n_burn=5, thin=0.5, n_jobs=1, store_in_sample_predictions=bool(kind % 2))
                with common.Tape(seed + 1):
                    est.fit(X, y)
                check_fit(est, X, y, cov, stream=seed + 1)
    return cov

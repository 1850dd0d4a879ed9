"""C31: copies of live models, stored samples and estimators are faithful and independent."""
import copy
import io
import itertools
import pickle

import joblib
import numpy as np
import statsmodels.api as sm
from sklearn.linear_model import LinearRegression

from bartpy.extensions.baseestimator import ResidualBART
from bartpy.extensions.ols import OLS
from bartpy.features.featureselection import SelectNullDistributionThreshold, SelectSplitProportionThreshold
from bartpy.initializers.sklearntreeinitializer import SklearnTreeInitializer
from bartpy.model import deep_copy_model
from bartpy.samplers.modelsampler import ModelSampler
from bartpy.samplers.schedule import SampleSchedule
from bartpy.samplers.sigma import SigmaSampler
from bartpy.samplers.oblivioustrees.proposer import UniformMutationProposer as ObliviousProposer
from bartpy.samplers.oblivioustrees.treemutation import UnconstrainedTreeMutationSampler as OBLIVIOUS
from bartpy.node import LeafNode
from bartpy.trace import TraceLogger

from mc import real, ref
from mc.backends import roundtrip
from mc.core import Coverage, explore, need
from mc.rng import Controller
from checks import big, c13, common, streams
from checks.c05 import Fixed
from checks.c16 import same
from checks.c17 import SETS, result


def dumped(x):
    f = io.BytesIO()
    joblib.dump(x, f)
    f.seek(0)
    return joblib.load(f)


COPIES = {"deepcopy": copy.deepcopy, "pickle": lambda x: pickle.loads(pickle.dumps(x)), "old pickle": lambda x: pickle.loads(pickle.dumps(x, 2)), "worker": roundtrip, "file": dumped}
DATA = [([[0, 1]], 1), ([[1, 0, 2]], 1), ([[0, 1], [1, 0]], 1), ([[0, 1, 1]], 2), ([[2, 0, 1, 3]], 1), ([[0, 0]], 2), ([[0, 1, 0], [1, 1, 0]], 2)]
CLASSES = ["SklearnModel", "initialized", "ResidualBART", "OLS"]
OPS = ["fit same", "fit other", "set and fit", "edit samples", "edit data", "ask"]


def items(tier):
    q = tier == "quick"
    out = []
    for cols, nt in DATA:
        order, _ = ref.all_trees(ref.matrix(cols, 1), cap=20 if q else 60)
        for k in range(0, len(order), 3):
            out.append({"kind": "model", "cols": cols, "nt": nt, "at": list(range(k, min(k + 3, len(order)))), "depth": 1 if q else 2})
    out += [{"kind": "large", "name": n, "style": s} for n in big.MORE for s in ("mixed", "right")]
    out += [{"kind": "padded", "cols": c} for c in ([[0]], [[0, 1]], [[1, 0, 2]], [[0, 0, 1]], [[0, 1], [1, 0]])]
    for cls, how, fitted in itertools.product(CLASSES, COPIES, (True, False)):
        for first in OPS if fitted else OPS[:3]:
            if q and how in ("old pickle", "file") and first not in ("fit other", "edit samples"):
                continue
            out.append({"kind": "estimator", "class": cls, "copy": how, "fitted": fitted, "first": first, "chains": [1, 2] if not q else [1 + len(first) % 2]})
    out += [{"kind": "selector", "class": c, "copy": how, "fitted": f} for c in ("share", "local", "global") for how in COPIES for f in (True, False)]
    return out


def bounds(tier):
    return {"copies": sorted(COPIES), "models": "every tree (cap %d) of %d small data sets as first tree of a model of 1-2, asked before copying or not" % (20 if tier == "quick" else 60, len(DATA)),
            "then": "every move, value change, target update, prediction, sweep of the backfitting and sweep of the real samplers on equal draws, done to one and then to the other (%d in a row)" % (1 if tier == "quick" else 2),
            "large": "deep trees on %s" % big.MORE, "oblivious": "every tree of two accepted oblivious updates", "estimators": "%s, selectors; new and fitted; every pair of %s" % (CLASSES, OPS)}


# ------------------------------------------------------------------ live models
def full(m, X, G):
    p = c13.print_of(m, G)
    p["training prediction"] = np.asarray(m.predict(), dtype=float).tolist()
    p["residuals"] = np.asarray(m.residuals(), dtype=float).tolist()
    p["original scale"] = getattr(m.data.y, "original_y_min", None), getattr(m.data.y, "original_y_max", None)
    nodes = []
    for t in m.trees:
        idx = real.index(t)
        at = {id(n): path for path, n in idx.items()}
        nodes.append([(at[id(n)], int(n.data.X.n_obsv), float(n.data.y.summed_y()), [int(v) for v in n.data.X.splittable_variables()],
                       [float(n.data.X.max_value_of_column(v)) for v in range(X.shape[1])], [bool(n.data.X.is_column_unique(v)) for v in range(X.shape[1])], real.rows_of(n)) for n in t.nodes])
        nodes.append([[at[id(n)] for n in l] for l in (t.leaf_nodes, t.splittable_leaf_nodes, t.decision_nodes, t.prunable_decision_nodes)])
    p["nodes"] = nodes
    return p


def gibbs(model, k):
    """One sweep of the shipped samplers on a fixed tape of draws."""
    with common.Tape(k):
        ModelSampler(SampleSchedule(streams.UnconstrainedTreeMutationSampler(streams.Stateless(), common.own_sampler().likihood_ratio, scalar_sampler=streams.UniformScalarSampler(1)),
                                    common.own_leaf_sampler(), SigmaSampler())).step(model, TraceLogger())


def act(model, op, X, y):
    if op[0] == "gibbs":
        gibbs(model, op[1])
    else:
        c13.apply(model, op, 1, X, y, [])


def compare(model, copied, ops, X, y, G, d, cov):
    """ops are done to one and then to the other; neither sees what is done to the other."""
    need(copied is not model and not ({id(t) for t in copied.trees} & {id(t) for t in model.trees}), "a copy is not a copy", **d)
    a, b = full(model, X, G), full(copied, X, G)
    need(a == b, "a copy of a model differs from it", differs=c13.differs(a, b), **d)
    for k, op in enumerate(ops):
        one, other = (copied, model) if k % 2 == 0 else (model, copied)
        before = full(other, X, G)
        act(one, op, X, y)
        after = full(other, X, G)
        need(after == before, "what is done to a model changes %s" % ("the one it is a copy of" if k % 2 == 0 else "its copy"), operation=op, differs=c13.differs(before, after), **d)
        act(other, op, X, y)
        a, b = full(model, X, G), full(copied, X, G)
        need(a == b, "a model and its copy go different ways", operation=op, differs=c13.differs(a, b), **d)
        cov.transitions += 2
    cov.executions += 1


def plain():
    return [("values",), ("sample",), ("sigma",), ("prior",), ("update_y",), ("predict",), ("sweep",), ("data",), ("gibbs", 3), ("gibbs", 8)]


def run_model(item):
    cov = Coverage()
    X = ref.matrix(item["cols"], 1)
    y = ref.targets(len(X))
    G = ref.grid(X, cap=30)
    order, hist = ref.all_trees(X, cap=60)
    for at in item["at"]:
        t = order[at]
        ops = [("move", 0, m[:4]) for m in ref.moves(t, X)] + plain()
        for n, (how, op) in enumerate(itertools.product(COPIES, ops)):
            for then in [()] if item["depth"] == 1 else [(o,) for o in plain()]:
                if op[0] == "data" and then:
                    continue
                model = c13.build(X, y, item["nt"], hist[t])
                if n % 2:
                    model.predict()
                    [x.data.y.summed_y() for tr in model.trees for x in tr.nodes]
                compare(model, COPIES[how](model), (op,) + then, X, y, G, dict(data=X.tolist(), tree=t, copy=how), cov)
        cov.states += 1
    # stored samples
    for how in COPIES:
        model = c13.build(X, y, item["nt"], hist[t])
        s = deep_copy_model(model)
        p = c13.print_of(s, G)
        c = COPIES[how](s)
        need(c13.print_of(c, G) == p, "a copy of a stored sample differs from it", copy=how, tree=t, data=X.tolist())
        for x, z in ((c, s), (s, c)):
            q = c13.print_of(z, G)
            for tr in x.trees:
                for leaf in tr.leaf_nodes:
                    leaf.set_value(-9.0 - leaf.current_value)
            x.sigma.set_value(5.5)
            need(c13.print_of(z, G) == q, "what is done to a stored sample changes its copy", copy=how, tree=t, data=X.tolist())
        cov.executions += 1
    cov.sample({"data": X.tolist(), "trees": item["at"]})
    return cov


def run_large(item):
    cov = Coverage()
    X, y = big.data(item["name"])
    G = big.queries(X, 15)
    moves = big.history(X, item["style"], 14, 2)
    for k in (len(moves) // 2, len(moves)):
        for how in COPIES:
            model = c13.build(X, y, 3, [m for m, _ in moves[:k]])
            if k % 2:
                model.predict()
            t = moves[k - 1][1]
            mv = ref.moves(t, X)
            ops = [("gibbs", 5), ("move", 0, mv[-1][:4]), ("gibbs", 6), ("sweep",)]
            if item["name"] == "huge":
                ops = ops[1:2] + ops[:1]
            real.tree_stats_ok(COPIES[how](model).trees[0], X, model.trees[0].nodes[0].data.y.values, None, t)
            ops = [ops[1]] + [ops[0]] + ops[2:]
            compare(model, COPIES[how](model), ops, X, y, G, dict(data=item["name"], style=item["style"], moves=k, copy=how), cov)
        cov.states += 1
    return cov


def run_padded(item):
    cov = Coverage()
    X = ref.matrix(item["cols"], 1)
    y = ref.targets(len(X))
    G = ref.grid(X, cap=30)
    names = sorted(COPIES)

    def one(ch):
        model = c13.build(X, y, 1, ())
        with Controller(pick=ch.pick, retry=True):
            for s in range(2):
                res = OBLIVIOUS(ObliviousProposer(0.5, 0.5), c13.Always(), Fixed(0.5)).step(model, model.trees[0])
                if not res:
                    break
        for i, leaf in enumerate(model.trees[0].leaf_nodes):
            leaf.set_value(0.5 * i)
        compare(model, COPIES[names[len(ch.trace) % len(names)]](model), [("values",), ("sample",), ("update_y",), ("sweep",)], X, y, G, dict(data=X.tolist(), choices=ch.choices), cov)
        with Controller(pick=lambda n, w=None, what="": 0, retry=True):
            c = copy.deepcopy(model)
            for m in (model, c):
                OBLIVIOUS(ObliviousProposer(0.5, 0.5), c13.Always(), Fixed(0.5)).step(m, m.trees[0])
        a, b = c13.print_of(model, G), c13.print_of(c, G)
        need(a == b, "a model and its copy go different ways", operation="oblivious update", differs=c13.differs(a, b), data=X.tolist())
        return True
    for ch, _ in explore(one, limit=30):
        cov.states += 1
        cov.truncated += bool(ch.truncated)
    return cov


# ------------------------------------------------------------------ estimators
def make(cls, chains):
    kw = dict(n_chains=chains)
    if cls == "ResidualBART":
        return streams.make(ResidualBART, base_estimator=LinearRegression(), **kw)
    if cls == "OLS":
        return streams.make(OLS, stat_model=sm.OLS, **kw)
    if cls == "initialized":
        return streams.make(initializer=SklearnTreeInitializer(max_depth=2), **kw)
    return streams.make(**kw)


def fit(est, i):
    streams.reset()
    np.random.seed(11)      # scikit-learn breaks ties with numpy's own generator
    with common.Tape(4):
        est.fit(SETS[i][0].copy(), SETS[i][1].copy())


def state(est):
    p = {k: v if isinstance(v, (int, float, bool, str, type(None))) else type(v).__name__ for k, v in est.get_params(deep=False).items()}
    return p, None if est.model_samples is None else result(est)


def differ(a, b):
    if a[0] != b[0]:
        return "parameters"
    if (a[1] is None) != (b[1] is None):
        return "one is fitted"
    return None if a[1] is None else same(a[1], b[1])


def do(est, op):
    if op == "fit same":
        fit(est, 0)
    elif op == "fit other":
        fit(est, 3)
    elif op == "set and fit":
        est.set_params(n_trees=1, n_samples=2, alpha=0.5)
        fit(est, 0)
    elif op == "ask":
        est.predict(SETS[0][0]), est.predict(), est.residuals(), est.l2_error(SETS[0][0], SETS[0][1])
    elif op == "edit samples":
        for k, m in enumerate(est.model_samples):
            for t in m.trees:
                for leaf in t.leaf_nodes:
                    leaf.set_value(leaf.current_value + 1.0 + k)
            m.sigma.set_value(4.0)
        est.prediction_samples[:] = 0.25
    elif op == "edit data":
        est.data.y.values[:] = 0.5 * est.data.y.values + 0.125
        if hasattr(est, "base_estimator"):
            est.base_estimator.coef_[:] = 7.0


def run_estimator(item):
    cov = Coverage()
    make_copy = COPIES[item["copy"]]
    for chains, second, side in itertools.product(item["chains"], OPS if item["fitted"] else OPS[:3], ("copy", "original")):
        est = make(item["class"], chains)
        if item["fitted"]:
            fit(est, 0)
        d = dict(estimator=item["class"], copy=item["copy"], fitted=item["fitted"], chains=chains, first=item["first"], second=second, first_done_to=side)
        c = make_copy(est)
        w = differ(state(est), state(c))
        need(w is None, "a copy of an estimator differs from it: %s" % w, **d)
        one, other = (c, est) if side == "copy" else (est, c)
        fits = item["fitted"]
        for op, (a, b) in ((item["first"], (one, other)), (second, (other, one))):
            if not (op.startswith("fit") or op.startswith("set")) and not fits:
                continue
            before = state(b)
            do(a, op)
            w = differ(before, state(b))
            need(w is None, "what is done to an estimator changes its copy or its original: %s" % w, operation=op, **d)
            do(b, op)
            w = differ(state(a), state(b))
            need(w is None, "an estimator and its copy go different ways: %s" % w, operation=op, **d)
            fits = True
            cov.transitions += 2
        w = differ(state(est), state(make_copy(make_copy(est))))
        need(w is None, "a copy of a copy of an estimator differs from it: %s" % w, **d)
        cov.executions += 1
        cov.states += 1
    return cov


def selector(kind):
    m = streams.make(n_chains=2)
    return SelectSplitProportionThreshold(m, 0.4) if kind == "share" else SelectNullDistributionThreshold(m, 0.75, method=kind, n_permutations=3, n_trees=2)


def sel_state(s):
    out = {k: v if isinstance(v, (int, float, str, type(None))) else type(v).__name__ for k, v in s.get_params(deep=False).items()}
    if s.model.model_samples is None:
        return out, None
    r = [np.asarray(s.get_support()).tolist(), sorted(s.feature_proportions.items()), np.asarray(s.transform(SETS[0][0])).tolist()]
    if hasattr(s, "thresholds"):
        r += [sorted(s.thresholds.items()), sorted((k, list(v)) for k, v in s.null_distribution.items())]
    return out, r, differless(result(s.model))


def differless(r):
    return [r[0], [x.tolist() for x in r[1]], r[2], r[3], r[4]]


def run_selector(item):
    cov = Coverage()
    for i, j in itertools.product((0, 2, 3), repeat=2):
        s = selector(item["class"])
        if item["fitted"]:
            fit(s, 0)
        d = dict(selector=item["class"], copy=item["copy"], fitted=item["fitted"], fits=[i, j])
        c = COPIES[item["copy"]](s)
        need(sel_state(c) == sel_state(s), "a copy of a selector differs from it", **d)
        for a, b, k in ((c, s, i), (s, c, j)):
            before = sel_state(b)
            fit(a, k)
            need(sel_state(b) == before, "fitting a selector changes its copy or its original", fit=k, **d)
            fit(b, k)
            need(sel_state(a) == sel_state(b), "a selector and its copy go different ways", fit=k, **d)
            cov.transitions += 2
        for m in c.model.model_samples:
            for t in m.trees:
                for leaf in t.leaf_nodes:
                    leaf.set_value(3.0)
        before = sel_state(s)
        c.feature_proportions[0] = -1.0
        need(sel_state(s) == before, "what is done to a copy of a selector changes the original", **d)
        cov.executions += 1
        cov.states += 1
    return cov


def run(item):
    return globals()["run_" + item["kind"]](item)

"""C16: fitting is isolated from its inputs, earlier fits and other estimators."""
import itertools

import numpy as np
import pandas as pd
import statsmodels.api as sm
from sklearn.base import clone

from bartpy.extensions.baseestimator import ResidualBART
from bartpy.extensions.ols import OLS
from bartpy.samplers.treemutation import TreeMutationProposer
from bartpy.samplers.unconstrainedtree.proposer import uniformly_sample_grow_mutation, uniformly_sample_prune_mutation
from bartpy.sklearnmodel import SklearnModel

from mc import ref, rng
from mc.backends import isolated
from mc.core import Coverage, need
from mc.rng import Controller
from checks import common

MAXTASKS = 1           # every unit starts from a fresh process: no cached draws from elsewhere

A = (np.array([[0.0, 1.0], [1.0, 0.0], [2.0, 1.0], [3.0, 3.0]]), np.array([3.0, -1.0, 10.0, 2.0]))
B = (np.array([[5.0, 2.0], [1.0, 4.0], [2.0, 0.0]]), np.array([100.0, 300.0, 250.0]))
G = np.array([[0.5, 0.5], [1.0, 1.0], [2.0, 0.0], [5.0, 5.0], [-1.0, 2.0], [3.0, 1.0]])


class Stateless(TreeMutationProposer):
    """Draws the kind afresh each time, so that nothing is prefetched across fits."""

    def propose(self, tree):
        kinds = []
        if tree.splittable_leaf_nodes:
            kinds.append(uniformly_sample_grow_mutation)
        if tree.prunable_decision_nodes:
            kinds.append(uniformly_sample_prune_mutation)
        if not kinds:
            return None
        return kinds[int(np.random.randint(len(kinds)))](tree)


def make(kind="SklearnModel", **kw):
    if kind == "ResidualBART":
        kw["cls"] = ResidualBART
    elif kind == "OLS":
        kw.update(cls=OLS, stat_model=sm.OLS)
    from bartpy.samplers.scalar import UniformScalarSampler
    from bartpy.samplers.unconstrainedtree.treemutation import UnconstrainedTreeMutationSampler
    base = common.own_sampler()
    ts = UnconstrainedTreeMutationSampler(Stateless(), base.likihood_ratio, scalar_sampler=UniformScalarSampler(1))
    kw.setdefault("n_trees", 2)
    kw.setdefault("n_samples", 3)
    kw.setdefault("n_burn", 1)
    kw.setdefault("store_in_sample_predictions", True)
    kw.setdefault("store_acceptance_trace", True)
    return common.fresh(tree_sampler=ts, **kw)


OPS = ["fit A", "fit B", "fit A frame", "overwrite inputs", "predict", "other fit A", "other fit B", "construct", "clone", "fit_predict B", "edit result", "bare fit B"]
CLASSES = ["SklearnModel", "ResidualBART", "OLS"]
CONTAINERS = ["array", "frame", "int", "fortran", "sliced", "readonly", "int32", "frame named", "float32", "y int", "frame int"]
PLAIN = ["float32", "object", "frame object", "big endian", "uint8", "y int8", "float16"]        # base models compute in the precision they are given, or refuse the type
CONTAINERS += [c for c in PLAIN if c not in CONTAINERS]


def items(tier):
    q = tier == "quick"
    out = [{"kind": "containers", "name": c, "chains": n, "tape": t, "cls": k} for k in CLASSES for c in CONTAINERS for n in (1, 2) for t in ((3,) if q else (3, 4, 5, 6))
           if k == "SklearnModel" or c not in PLAIN]
    for first in OPS:
        for second in OPS:
            out.append({"kind": "ops", "prefix": [first, second], "depth": 3 if q else 4})
    out += [{"kind": "default", "seq": list(s)} for s in itertools.product(["A", "B", "other", "changed"], repeat=2 if q else 3)]
    return out


def bounds(tier):
    return {"operations": OPS, "sequences": "all of length up to %d" % (3 if tier == "quick" else 4), "containers": CONTAINERS,
            "default estimators": "all orders of fits of estimators that share the default arguments, constant draws"}


def fit(est, X, y, tape=3):
    with common.Tape(tape):
        return est.fit(X, y)


def result(est, n):
    p = [np.asarray(est.predict(G), dtype=float), np.asarray(est.predict(), dtype=float), np.asarray(est.residuals(), dtype=float)]
    # the training rows the fitted model holds (diagnostics and the residual extensions predict them)
    p += [np.asarray(est.predict(est.data.X.values), dtype=float), np.asarray(est.data.X.values, dtype=float), np.asarray(est.data.y.unnormalized_y, dtype=float)]
    return (common.states_of(est), p, [dict(a) for a in est.acceptance_trace], float(est.data.y.normalizing_scale), len(est.extract))


def same(a, b):
    if len(a[0]) != len(b[0]):
        return "number of samples"
    for (s1, g1), (s2, g2) in zip(a[0], b[0]):
        if [t for t, _ in s1] != [t for t, _ in s2]:
            return "trees"
        if abs(g1 - g2) > 1e-9 * abs(g1):
            return "noise level"
        for (_, v1), (_, v2) in zip(s1, s2):
            if set(v1) != set(v2) or any(abs(v1[p] - v2[p]) > 1e-9 for p in v1):
                return "leaf values"
    for x, y, what in zip(a[1], b[1], ("predictions", "training predictions", "residuals", "prediction of the training rows held", "training rows held", "training targets held")):
        if x.shape != y.shape or not np.allclose(x, y, rtol=1e-9, atol=1e-9):
            return what
    if a[2] != b[2]:
        return "acceptance trace"
    if abs(a[3] - b[3]) > 1e-9 or a[4] != b[4]:
        return "scale or chains"
    return None


def run(item):
    return {"containers": run_containers, "ops": run_ops, "default": run_default}[item["kind"]](item)


def wrap(name):
    X, y = A[0].copy(), A[1].copy()
    if name == "frame":
        X = pd.DataFrame(X)
    elif name == "frame named":
        X = pd.DataFrame(X, columns=["b", "a"], index=[7, 3, 3, 0])
    elif name == "frame int":
        X = pd.DataFrame(X.astype(int), columns=["x", "y"])
    elif name == "int":
        X = X.astype(int)
    elif name == "int32":
        X = X.astype(np.int32)
    elif name == "float32":
        X = X.astype(np.float32)
    elif name == "y int":
        y = y.astype(int)
    elif name == "float16":
        X = X.astype(np.float16)
    elif name == "object":
        X = X.astype(object)
    elif name == "frame object":
        X = pd.DataFrame(X).astype(object)
    elif name == "big endian":
        X, y = X.astype(">f8"), y.astype(">f8")
    elif name == "uint8":
        X = X.astype(np.uint8)
    elif name == "y int8":
        y = y.astype(np.int8)
    elif name == "fortran":
        X = np.asfortranarray(X)
    elif name == "sliced":
        big = np.zeros((8, 4))
        big[::2, 1:3] = X
        X = big[::2, 1:3]
        yy = np.zeros(8)
        yy[::2] = y
        y = yy[::2]
    elif name == "readonly":
        X.setflags(write=False)
        y.setflags(write=False)
    return X, y


def run_containers(item):
    cov = Coverage()
    base = make(item["cls"], n_chains=item["chains"])
    fit(base, A[0].copy(), A[1].copy(), item["tape"])
    want = result(base, 4)
    X, y = wrap(item["name"])
    keep = (np.array(X, copy=True), np.array(y, copy=True), type(X), getattr(X, "columns", None), getattr(X, "index", None))
    est = make(item["cls"], n_chains=item["chains"])
    fit(est, X, y, item["tape"])
    d = dict(estimator=item["cls"], container=item["name"], chains=item["chains"])

    def untouched():
        need(np.array_equal(np.array(X), keep[0]) and np.array_equal(np.array(y), keep[1]) and type(X) == keep[2], "the caller's data was changed", **d)
        if keep[3] is not None:
            need(list(X.columns) == list(keep[3]) and list(X.index) == list(keep[4]), "the caller's frame was changed", **d)
    untouched()
    got = result(est, 4)
    w = same(want, got)
    need(w is None, "a fit depends on the container or dtype of its input: %s" % w, **d)
    q = pd.DataFrame(G, index=[9, 8, 7, 6, 5, 4])
    est.predict(q)
    need(np.array_equal(q.values, G), "predicting changed the caller's rows", **d)
    est.predict(X)
    est.residuals(X, y)
    untouched()
    if item["name"] != "readonly":
        if isinstance(X, pd.DataFrame):
            X.iloc[:, :] = -9
        else:
            X[...] = 99
        y[...] = -9
        w = same(want, result(est, 4))
        need(w is None, "changing the inputs after fitting changed the fitted model: %s" % w, **d)
    cov.states += 1
    cov.executions += 2
    cov.transitions += 8
    return cov


def run_ops(item):
    cov = Coverage()
    base = {}
    for name, D in (("A", A), ("B", B)):
        e = make()
        fit(e, D[0].copy(), D[1].copy())
        base[name] = result(e, len(D[1]))
    for rest in itertools.product(OPS, repeat=item["depth"] - 2):
        seq = item["prefix"] + list(rest)
        est, other = make(), make(n_trees=1, n_samples=2)
        cur, inputs = None, None
        d = dict(sequence=seq)
        for op in seq:
            cov.transitions += 1
            if op in ("fit A", "fit B", "fit A frame", "fit_predict B"):
                D = A if " A" in op else B
                X, y = D[0].copy(), D[1].copy()
                if op.endswith("frame"):
                    X = pd.DataFrame(X)
                if op.startswith("fit_predict"):
                    with common.Tape(3):
                        out = est.fit_predict(X, y)
                    need(np.allclose(out, base["B"][1][1]), "fit_predict differs from a fresh fit", **d)
                else:
                    fit(est, X, y)
                cur, inputs = ("A" if " A" in op else "B"), (X, y)
            elif op == "overwrite inputs" and inputs is not None:
                if isinstance(inputs[0], pd.DataFrame):
                    inputs[0].iloc[:, :] = 4.0
                else:
                    inputs[0][...] = 4.0
                inputs[1][...] = -4.0
            elif op == "bare fit B":
                est.set_params(store_in_sample_predictions=False, store_acceptance_trace=False)
                fit(est, B[0].copy(), B[1].copy())
                need(len(est.acceptance_trace) == 0 and len(est.prediction_samples) == 0, "a fit keeps what a previous one stored", **d)
                need(np.allclose(est.predict(G), base["B"][1][0]), "prediction differs from that of a fresh fit", **d)
                try:
                    est.predict()
                except ValueError:
                    pass
                else:
                    need(False, "a fit keeps the training predictions of a previous one", **d)
                est.set_params(store_in_sample_predictions=True, store_acceptance_trace=True)
                cur, inputs = None, None
            elif op == "predict" and cur:
                p = est.predict(G.copy())
                need(np.allclose(p, base[cur][1][0]), "prediction differs from that of a fresh fit", got=p.tolist(), expected=base[cur][1][0].tolist(), **d)
            elif op == "edit result" and cur:
                for p in (est.predict(G.copy()), est.predict(), est.residuals()):
                    p += 1000.0
            elif op in ("other fit A", "other fit B"):
                D = A if op.endswith("A") else B
                fit(other, D[0].copy(), D[1].copy(), 5)
                other.predict(G)
            elif op == "construct":
                SklearnModel(n_trees=7, sigma_a=5.0, alpha=0.5)
                make(n_trees=9)
            elif op == "clone":
                c = clone(est)
                need(c.model_samples is None, "a clone carries samples of the fitted original", **d)
                c.set_params(n_trees=5, n_samples=1)
            if cur:
                w = same(base[cur], result(est, 0))
                need(w is None, "a fit depends on what happened before or after it: %s" % w, after=op, **d)
        cov.states += 1
        cov.executions += 1
    return cov


class Still:
    """A tree sampler that never moves."""

    def step(self, model, tree):
        return None


class Const(Controller):
    def pick_batch(self, n, size, weights):
        return [self.pick(n, weights, "batch")] * size


def run_default(item):
    """Estimators that share the default samplers; constant draws, so that prefetching does not matter."""
    cov = Coverage()
    XA = np.array([[float((i * 5) % 11), float(i)] for i in range(11)])
    yA = np.array([float((i * 7) % 11) for i in range(11)])
    XB, yB = XA[::-1] * 2 + 1, yA * 10 - 3

    def run_one(est, which):
        X, y = (XA, yA) if which != "B" else (XB, yB)
        with Const(pick=lambda n, w=None, what="": 0, u=0.9, z=0.25, g=1.0):
            est.fit(X.copy(), y.copy())
        return same_key(est)

    def same_key(est):
        return (common.states_of(est), [np.asarray(est.predict(XA), dtype=float)])
    kw = dict(n_trees=2, n_chains=1, n_samples=2, n_burn=0, thin=1.0, n_jobs=1)
    ref_a, ref_b = run_one(SklearnModel(**kw), "A"), run_one(SklearnModel(**kw), "B")
    est = SklearnModel(**kw)
    for s in item["seq"]:
        if s == "other":
            run_one(SklearnModel(n_trees=3, n_chains=1, n_samples=1, n_burn=1, thin=1.0, n_jobs=1, alpha=0.5), "A")
            continue
        if s == "changed":
            o = SklearnModel(**kw)
            o.set_params(tree_sampler=Still(), n_trees=1, n_samples=1, store_acceptance_trace=True)
            with Const(pick=lambda n, w=None, what="": 0, u=0.9, z=0.25, g=1.0):
                o.fit(XA.copy(), yA.copy())
            need(np.all(np.array([len(t.nodes) for m in o.model_samples for t in m.trees]) == 1), "a tree sampler set with set_params is not used", sequence=item["seq"])
            continue
        got = run_one(est, s)
        want = ref_a if s == "A" else ref_b
        ok = len(got[0]) == len(want[0]) and all([t for t, _ in a[0]] == [t for t, _ in b[0]] for a, b in zip(got[0], want[0])) and np.allclose(got[1][0], want[1][0])
        need(ok, "estimators with default arguments influence each other", sequence=item["seq"], got=got[1][0].tolist(), expected=want[1][0].tolist())
        cov.transitions += 1
    got = run_one(SklearnModel(**kw), "A")
    ok = len(got[0]) == len(ref_a[0]) and all([t for t, _ in a[0]] == [t for t, _ in b[0]] for a, b in zip(got[0], ref_a[0])) and np.allclose(got[1][0], ref_a[1][0])
    need(ok, "a new estimator is influenced by earlier ones", sequence=item["seq"], got=got[1][0].tolist(), expected=ref_a[1][0].tolist())
    cov.states += 1
    cov.executions += 1
    return cov

"""C18: initialization from scikit-learn trees."""
import itertools

import numpy as np
from sklearn.ensemble import GradientBoostingRegressor
from sklearn.tree import DecisionTreeRegressor, ExtraTreeRegressor

from bartpy.data import Data
from bartpy.initializers.sklearntreeinitializer import SklearnTreeInitializer, map_sklearn_tree_into_bartpy
from bartpy.model import Model
from bartpy.sigma import Sigma

from mc import real, ref
from mc.core import Coverage, need, close
from checks import big, common

# values exactly representable in single precision, which scikit-learn's trees use
TABLES = [[-1.5, 0.0, 2.0, 1024.0, 2048.0], [0.0, 1.0, 2.5, 9.0, 10.0], [-3.0, -2.0, 0.0, 0.25, 0.5]]


def mat(cols, shift):
    return np.array([[TABLES[(j + shift) % 3][r] for r in c] for j, c in enumerate(cols)], dtype=float).T


def items(tier):
    q = tier == "quick"
    spec = [(1, 1, 1), (2, 1, 1), (3, 1, 1), (4, 1, 1 if q else 1), (2, 2, 1), (3, 2, 2 if q else 1), (4, 2, 97 if q else 11), (5, 1, 5 if q else 1), (3, 3, 40 if q else 7)]
    out = []
    for cols, shift in common.datasets(tier, spec):
        out.append({"cols": cols, "shift": shift % 3})
    out += [{"kind": "large", "which": w} for w in range(4)]
    return out


def bounds(tier):
    return {"data": "all covariate orders of 1-4 rows x 1 column and 2-3 rows x 2 columns, some of 4x2, 5x1, 3x3; 29x1, 7x13, 130x3 and 64x4 (trees up to 28 deep)", "scikit-learn trees": "DecisionTreeRegressor (depth 1, 2, none; absolute error), ExtraTreeRegressor, single gradient boosting trees, minimal split sizes",
            "initializer": "max_depth 1-4, min_samples_split 2-4, both losses, models of 1-3 trees, shared between models, followed by moves"}


def fits(X, y):
    for depth in (1, 2, None):
        yield "DecisionTree(%s)" % depth, DecisionTreeRegressor(max_depth=depth, random_state=0).fit(X, y)
    yield "DecisionTree(absolute)", DecisionTreeRegressor(criterion="absolute_error", random_state=0).fit(X, y)
    yield "DecisionTree(min_samples_split=3)", DecisionTreeRegressor(min_samples_split=3, random_state=1).fit(X, y)
    yield "DecisionTree(max_leaf_nodes=3)", DecisionTreeRegressor(max_leaf_nodes=3, random_state=2).fit(X, y)      # nodes in best first order
    for s in (0, 1):
        yield "ExtraTree(%d)" % s, ExtraTreeRegressor(random_state=s).fit(X, y)
    g = GradientBoostingRegressor(n_estimators=2, max_depth=3, learning_rate=0.8, random_state=0).fit(X, y)
    yield "GradientBoosting[0]", g.estimators_[0][0]
    yield "GradientBoosting[1]", g.estimators_[1][0]


def ref_of(st, i=0):
    if st.children_left[i] == -1:
        return None
    return (int(st.feature[i]), float(st.threshold[i]), ref_of(st, st.children_left[i]), ref_of(st, st.children_right[i]))


def large(w):
    """Deep and bushy trees, more than ten columns; values exact in single precision."""
    if w == 0:          # scikit-learn splits off one row after the other
        X = np.array([[float((i * 7) % 29)] for i in range(29)])
        return X, 3.0 ** -X[:, 0]
    if w == 1:
        X, _ = big.data("wide")
        return X, np.array([0.0, 5.0, -3.0, 8.0, 1.0, 1.5, -2.0])
    if w == 2:
        X, y = big.data("tall")
        return X, y
    X, y = big.data("binary")
    return X, y


def run_large(item):
    cov = Coverage()
    X, y = large(item["which"])
    n = len(X)
    for name, est in fits(X, y):
        st = est.tree_
        d = dict(data=item["which"], scikit_learn=name, depth=int(st.max_depth))
        tree = real.new_tree(X, y)
        map_sklearn_tree_into_bartpy(tree, st)
        c = real.well_formed(tree, X)
        need(c == ref_of(st), "the mapped tree has another structure", got=c, expected=ref_of(st), **d)
        Q = np.clip(big.queries(X, 40), -1e30, 1e30).astype(np.float32).astype(float)
        want = st.predict(Q.astype(np.float32))[:, 0].ravel()
        need(close(tree.predict(Q), want), "the mapped tree predicts differently", **d)
        need(close(tree.predict(), want[:n]), "training prediction of the mapped tree is wrong", **d)
        real.tree_stats_ok(tree, X, y, canonical=c, **d)
        cov.states += 1
        cov.executions += 1
        cov.transitions += len(tree.nodes)
        cov.outcomes.add(int(st.max_depth))
    for depth, nt, mss in ((12, 2, 2), (30, 1, 2), (3, 11, 2), (9, 4, 2), (7, 3, 8), (20, 2, 21)):
        model = Model(Data(X.copy(), y.copy()), Sigma(1.0, 1.0, 1.0), n_trees=nt, initializer=SklearnTreeInitializer(max_depth=depth, min_samples_split=mss))
        done = np.zeros(n)
        d = dict(data=item["which"], max_depth=depth, min_samples_split=mss, n_trees=nt)
        for i, t in enumerate(model.trees):
            c = real.well_formed(t, X)
            need(max(nn.depth for nn in t.nodes) <= depth, "an initialized tree is deeper than configured", **d)
            if i == 0 and X.shape[1] == 1:
                g = GradientBoostingRegressor(n_estimators=1, max_depth=depth, min_samples_split=mss, learning_rate=0.8, random_state=0).fit(X, y)
                need(c == ref_of(g.estimators_[0][0].tree_), "an initialized tree is not the tree of scikit-learn's boosting with its parameters", **d)
            for path, sub, rows, _ in ref.walk(c, X):
                need(sub is None or len(rows) >= mss, "a node with fewer rows than min_samples_split was split", rows=rows, **d)
            resid, want = y - done - np.mean(y - done), np.zeros(n)
            for path, sub, rows, _ in ref.leaves(c, X):
                want[list(rows)] = np.mean(resid[list(rows)])
                if i == 0 and len(path) < depth and len(rows) >= mss and ref.splittable(X, rows):
                    need(np.ptp(resid[list(rows)]) < 1e-3, "an initialized tree stops early", path=path, rows=rows, tree_number=i, **d)
            pred = np.asarray(t.predict(), dtype=float)
            need(close(pred, want), "an initialized tree is not fitted to the residual of the trees before it", tree_number=i, **d)
            need(close(t.predict(X), pred), "training and new data prediction disagree", tree_number=i, **d)
            done = done + pred
        need(close(model.predict(), done), "model prediction is not the sum of its initialized trees", **d)
        cov.states += 1
        cov.transitions += nt
    return cov


def run(item):
    np.random.seed(1)           # scikit-learn breaks ties at random
    if item.get("kind") == "large":
        return run_large(item)
    cov = Coverage()
    X = mat(item["cols"], item["shift"])
    n = len(X)
    for kind in range(2):
        y = ref.targets(n, kind)
        for name, est in fits(X, y):
            st = est.tree_
            d = dict(data=X.tolist(), target=y.tolist(), scikit_learn=name)
            tree = real.new_tree(X, y)
            if kind:
                tree.predict()          # a prediction taken before the mapping
            map_sklearn_tree_into_bartpy(tree, st)
            c = real.well_formed(tree, X)
            need(c == ref_of(st), "the mapped tree has another structure", got=c, expected=ref_of(st), **d)
            Q = np.concatenate([X, ref.grid(X, cap=300)])
            Q = np.clip(Q, -1e30, 1e30).astype(np.float32).astype(float)
            want = st.predict(Q.astype(np.float32))[:, 0].ravel()
            got = np.asarray(tree.predict(Q), dtype=float)
            need(close(got, want), "the mapped tree predicts differently", got=got.tolist(), expected=want.tolist(), **d)
            need(close(tree.predict(), want[:n]), "training prediction of the mapped tree is wrong", got=list(tree.predict()), expected=want[:n].tolist(), **d)
            real.tree_stats_ok(tree, X, y, canonical=c, **d)
            # and it can be grown and pruned further
            for m in ref.moves(c, X)[:6]:
                t2 = real.new_tree(X, y)
                map_sklearn_tree_into_bartpy(t2, st)
                real.do(t2, m[:4])
                need(real.well_formed(t2, X) == ref.apply(c, m), "a move on a mapped tree gives another tree", move=m, **d)
                cov.transitions += 1
            cov.states += 1
            cov.executions += 1
            cov.outcomes.add(c)
    for depth, mss, loss, nt in itertools.product((1, 2, 4), (2, 4), ("squared_error", "absolute_error"), (1, 2, 3)):
        if loss == "absolute_error" and mss == 4:
            continue
        y = ref.targets(n, 0)
        init = SklearnTreeInitializer(max_depth=depth, min_samples_split=mss, loss=loss)
        seen = []

        class Spy(SklearnTreeInitializer):
            def initialize_tree(self, tree):
                t = np.array(tree.nodes[0].data.y.values, dtype=float)
                super().initialize_tree(tree)
                seen.append((tree, t))
        d = dict(data=X.tolist(), max_depth=depth, min_samples_split=mss, loss=loss, n_trees=nt)
        for which in (init, Spy(depth, mss, loss)):
            model = Model(Data(X.copy(), y.copy()), Sigma(1.0, 1.0, 1.0), n_trees=nt, initializer=which)
            need(len(model.trees) == nt, "wrong number of trees", **d)
            done = np.zeros(n)
            for i, t in enumerate(model.trees):
                c = real.well_formed(t, X)
                need(max(nn.depth for nn in t.nodes) <= depth, "an initialized tree is deeper than configured", tree=c, **d)
                for path, sub, rows, _ in ref.walk(c, X):
                    need(sub is None or len(rows) >= mss, "a node with fewer rows than min_samples_split was split", tree=c, rows=rows, **d)
                target = y - done
                g = GradientBoostingRegressor(n_estimators=1, max_depth=depth, min_samples_split=mss, learning_rate=0.8, loss=loss, random_state=0).fit(X, target)
                st = g.estimators_[0][0].tree_
                pred = np.asarray(t.predict(), dtype=float)
                if loss == "squared_error":
                    # with ties scikit-learn may choose another split, so the values are compared given the partition:
                    # the mean over a leaf of the target minus the overall mean
                    resid, want = target - np.mean(target), np.zeros(n)
                    for path, _, rows, _ in ref.leaves(c, X):
                        want[list(rows)] = np.mean(resid[list(rows)])
                    need(close(pred, want), "an initialized tree is not fitted to the residual of the trees before it", tree_number=i, got=pred.tolist(), expected=want.tolist(), **d)
                elif c == ref_of(st):
                    want = st.predict(X.astype(np.float32))[:, 0].ravel()
                    need(close(pred, want), "an initialized tree has other values than scikit-learn's", tree_number=i, got=pred.tolist(), expected=want.tolist(), **d)
                # it splits exactly when scikit-learn does
                need((c is None) == (st.children_left[0] == -1), "an initialized tree ignores its data", tree_number=i, tree=c, **d)
                need(close(t.predict(X), pred), "training and new data prediction disagree", tree_number=i, **d)
                done = done + pred
            need(close(model.predict(), done), "model prediction is not the sum of its initialized trees", **d)
            for tree in model.refreshed_trees():
                others = done - np.asarray(tree.predict(), dtype=float)
                real.tree_stats_ok(tree, X, y - others, names=["count", "sum", "splittable"], **d)
            cov.states += 1
            cov.transitions += nt
        for i, (t, target) in enumerate(seen):
            exp = y - np.sum([np.asarray(s.predict(), dtype=float) for s, _ in seen[:i]], axis=0) if i else y
            need(close(target, exp), "a tree is initialized on something else than the residual of the trees before it", tree_number=i,
                 got=target.tolist(), expected=np.asarray(exp).tolist(), **d)
    cov.sample({"data": X.tolist()})
    return cov

"""C05: predictions reflect the current trees and leaf values after every history of operations."""
import numpy as np

from bartpy.data import Data
from bartpy.model import Model
from bartpy.samplers.leafnode import LeafNodeSampler
from bartpy.sigma import Sigma

from mc import real, ref, walk
from mc.core import Coverage, need, close
from checks import big, common

VALUES = [1.0, -2.0]


class Fixed:
    def __init__(self, v):
        self.v = v

    def sample(self):
        return self.v


def items(tier):
    q = tier == "quick"
    base = [([[0, 1]], 1, 4 if q else 6), ([[1, 0, 2]], 1, 4 if q else 5), ([[0, 1, 1]], 1, 4 if q else 5), ([[0, 0, 0]], 1, 4),
            ([[0, 1], [1, 0]], 1, 4 if q else 5), ([[2, 0, 1, 3]], 1, 3 if q else 4), ([[0, 1, 0], [1, 1, 0]], 1, 3 if q else 4),
            ([[0, 1]], 2, 4 if q else 5), ([[0, 1, 2]], 2, 3 if q else 4), ([[0, 0]], 3, 3 if q else 4), ([[0]], 2, 4),
            ([[0, 1]], 3, 3 if q else 4)]
    out = []
    for cols, nt, depth in base:
        first = menu([None] * nt, ref.matrix(cols, 1))
        out += [{"cols": cols, "nt": nt, "depth": depth, "first": i} for i in range(len(first))]
    out += [{"kind": "deep", "cols": c, "cap": 60 if q else 1200} for c, _ in common.deep_datasets(tier)]
    out += [{"kind": "values", "cols": c, "cap": 25 if q else 200} for c, _ in common.datasets(tier, [(2, 1, 1), (3, 1, 2), (4, 1, 12), (3, 2, 60)])]
    out += [{"kind": "values", "case": c} for c in big.cases("quick") + [("tall", "bushy", 90)]]
    out += [{"kind": "many", "nt": nt} for nt in ((31, 130) if q else (31, 130, 300))]
    out += [{"kind": "big", "nt": nt, "data": n} for n in big.MORE for nt in (3, 12)]
    out += [{"kind": "sampler", "cols": c, "depth": d, "cap": cap, "when": w} for c, d, cap in walk.menu(tier) for w in (0, 1, 2, 3)]
    return out


def bounds(tier):
    return {"operations": ["grow and prune moves", "set_value to %s on each leaf" % VALUES, "leaf sampler step", "update_y", "Tree.predict()",
                           "Tree.predict(X)", "Model.predict() (result then overwritten by the caller)", "Model.predict(X)", "one query array changed in place"],
            "depth": "all sequences of 3 to 4 operations (quick), up to 6 (thorough); models of 1 to 3 trees", "sampler": "every sequence of up to 3-6 accepted updates of the default sampler, predictions asked for in between or not", "large": "models of 3 and 12 trees, each with its own fixed long history, on %s" % big.MORE, "deep": "trees of the larger data sets", "values": "%d ways of replacing the leaf values by similar ones, from %d starts, also on trees of up to 91 leaves" % (len(NUDGES), len(STARTS)), "many": "31 and 130 (300) trees"}


def menu(trees, X):
    ops = []
    for i, t in enumerate(trees):
        ops += [("move", i) + (m[:4],) for m in ref.moves(t, X)]
        for path, _, _, _ in ref.leaves(t, X):
            ops += [("set", i, path, v) for v in VALUES]
        ops += [("sample", i), ("update_y", i), ("tree.predict", i), ("tree.predict(X)", i)]
    ops += [("model.predict",), ("model.predict(X)",)]
    return ops


def run(item):
    if item.get("kind") == "big":
        return run_big(item)
    if item.get("kind") == "many":
        return run_many(item)
    if "case" in item:
        return run_values(item, big.data(item["case"][0])[0])
    X = ref.matrix(item["cols"], 1)
    if item.get("kind") == "deep":
        return run_deep(item, X)
    if item.get("kind") == "values":
        return run_values(item, X)
    if item.get("kind") == "sampler":
        return run_sampler(item, X)
    cov = Coverage()
    n = len(X)
    y = ref.targets(n)
    start = [None] * item["nt"]

    def rec(trees, hist):
        check(X, y, item["nt"], hist, cov)
        cov.states += 1
        if len(hist) < item["depth"]:
            for op in menu(trees, X):
                ts = trees
                if op[0] == "move":
                    ts = list(trees)
                    ts[op[1]] = ref.apply(trees[op[1]], op[2])
                rec(ts, hist + (op,))
    op = menu(start, X)[item["first"]]
    ts = list(start)
    if op[0] == "move":
        ts[op[1]] = ref.apply(None, op[2])
    rec(ts, (op,))
    cov.sample({"data": X.tolist(), "trees": item["nt"], "first": str(op)})
    return cov


def expected(tree, X, vals=None):
    idx = real.index(tree)
    c = real.canon(tree)
    out = np.zeros(len(X))
    for path, _, rows, _ in ref.leaves(c, X):
        out[list(rows)] = idx[path].current_value
    return out


def check(X, y, nt, hist, cov):
    n = len(X)
    model = Model(Data(X.copy(), y.copy()), Sigma(1.0, 1.0, 1.0), n_trees=nt, initializer=None)
    for op in hist:
        apply(model, op, X, y)
    cov.executions += 1
    cov.transitions += len(hist)
    d = dict(history=hist, data=X.tolist())
    each = [expected(t, X) for t in model.trees]
    total = np.sum(each, axis=0)
    # the model first on even histories, the trees first on odd ones
    if len(hist) % 2 == 0:
        need(close(model.predict(), total), "training prediction of the model is not the sum over current leaves", got=model.predict(), expected=total, **d)
    for t, e in zip(model.trees, each):
        got = np.array(t.predict(), dtype=float)
        need(close(got, e), "training prediction of a tree does not match its current leaves", got=got, expected=e, **d)
        need(close(t.predict(X.copy()), e), "prediction on the training covariates does not match the current leaves", got=t.predict(X), expected=e, **d)
    need(close(model.predict(), total), "training prediction of the model is not the sum over current leaves", got=model.predict(), expected=total, **d)
    need(close(model.predict(X.copy()), total), "model prediction on the training covariates is not the sum over current leaves", got=model.predict(X), expected=total, **d)
    need(close(model.residuals(), np.asarray(model.data.y.values) - total), "residuals do not match the current prediction", **d)
    same_array(model, X, each, d)


def same_array(model, X, each, d):
    """One array asked about, changed in place, and asked about again; the caller overwrites what it was given."""
    B = X.copy()
    for k, order in enumerate((np.arange(len(X)), np.arange(len(X))[::-1], np.roll(np.arange(len(X)), 1))):
        B[:] = X[order]
        for t, e in zip(model.trees, each):
            got = t.predict(B)
            need(close(got, e[order]), "prediction for an array changed in place is not that of its rows", got=got, expected=e[order], **d)
            got += 50.0
        got = model.predict(B)
        need(close(got, np.sum(each, axis=0)[order]), "model prediction for an array changed in place is not that of its rows", got=got, **d)
        got += 50.0


def apply(model, op, X, y):
    k = op[0]
    if k == "move":
        real.do(model.trees[op[1]], op[2])
    elif k == "set":
        leaf = real.index(model.trees[op[1]])[op[2]]
        leaf.set_value(op[3])
        need(leaf.current_value == op[3] and leaf.predict() == op[3], "a leaf does not hold the value it was given", value=op[3])
    elif k == "sample":
        for leaf in model.trees[op[1]].leaf_nodes:
            LeafNodeSampler(Fixed(0.75)).step(model, leaf)
    elif k == "update_y":
        model.trees[op[1]].update_y(y * 0.5 + 1)
    elif k == "tree.predict":
        t = model.trees[op[1]]
        got = np.array(t.predict(), dtype=float)
        need(close(got, expected(t, X)), "training prediction of a tree does not match its current leaves", got=got, data=X.tolist())
    elif k == "tree.predict(X)":
        t = model.trees[op[1]]
        need(close(t.predict(X.copy()), expected(t, X)), "prediction on the training covariates does not match the current leaves", data=X.tolist())
    elif k == "model.predict":
        got = model.predict()
        need(close(got, np.sum([expected(t, X) for t in model.trees], axis=0)), "training prediction of the model is wrong", data=X.tolist())
        got += 100.0
    elif k == "model.predict(X)":
        got = model.predict(X.copy())
        need(close(got, np.sum([expected(t, X) for t in model.trees], axis=0)), "model prediction on the training covariates is wrong", data=X.tolist())
        got += 100.0


def run_sampler(item, X):
    """Trees of the default tree update; the values depend only on the position in the list of leaves, so that different partitions carry
    equal values; the training prediction is asked for after some of the updates only."""
    cov = Coverage()
    y = ref.targets(len(X))

    def values(tree):
        for i, leaf in enumerate(tree.leaf_nodes):
            leaf.set_value(1.0 + 0.5 * i)

    def between(model, tree, j):
        if j % 2 == item["when"] % 2 or item["when"] == 3:
            values(tree)
            tree.predict()
            model.predict()

    def visit(model, tree, t, d):
        if item["when"] >= 2:
            e = expected(tree, X)
            need(close(tree.predict(), e), "training prediction of a tree does not match its current leaves", got=tree.predict(), expected=e, **d)
        values(tree)
        e = expected(tree, X)
        need(close(tree.predict(), e), "training prediction of a tree does not match its current leaves", got=tree.predict(), expected=e, **d)
        need(close(tree.predict(X), e), "prediction on the training covariates does not match the current leaves", got=tree.predict(X), expected=e, **d)
        need(close(model.predict(), e), "training prediction of the model is not the sum over current leaves", got=model.predict(), expected=e, **d)
        same_array(model, X, [e], d)
    walk.walks(common.own_sampler, X, y, item["depth"], item["cap"], cov, visit, between)
    return cov


NUDGES = [lambda v: v[::-1], lambda v: v[1:] + v[:1], lambda v: [x * (1 + 1e-9) for x in v], lambda v: [x + 1e-12 for x in v], lambda v: [-x for x in v],
          lambda v: [x + (1.0 if i == 0 else -1.0 if i == len(v) - 1 else 0.0) for i, x in enumerate(v)], lambda v: [x * 1e-14 for x in v],
          lambda v: [x + 1e-7 if i == len(v) - 1 else x for i, x in enumerate(v)], lambda v: [1e9 * x + 0.5 for x in v], lambda v: [v[0]] * len(v)]
STARTS = [lambda i: 1.0 + i, lambda i: 0.25 if i % 2 else -0.25, lambda i: 1e-9 * (i + 1), lambda i: 1e6 + i]


def run_values(item, X):
    """New values that look like the ones before: exchanged, nudged, negated, with the same sum; predictions to the last digits."""
    cov = Coverage()
    y = ref.targets(len(X))
    if "case" in item:
        h = big.history(X, *item["case"][1:])
        ends = [i for i in range(1, len(h) + 1) if i == len(h) or i % 24 == 0]
        hist = {h[i - 1][1]: tuple(m for m, _ in h[:i]) for i in ends}
        order = list(hist)
    else:
        order, hist = ref.all_trees(X, cap=item["cap"])

    def same(got, want):
        return np.allclose(np.asarray(got, dtype=float), want, rtol=1e-13, atol=0.0)
    for t in order:
        for s, first in enumerate(STARTS):
            for f, nudge in enumerate(NUDGES):
                if "case" in item and (s + f) % 4:
                    continue
                tree = real.build(X, y, hist[t])
                model = Model(Data(X.copy(), y.copy()), Sigma(1.0, 1.0, 1.0), trees=[tree])
                v = [first(i) for i in range(len(tree.leaf_nodes))]
                for step in range(3):
                    for leaf, x in zip(tree.leaf_nodes, v):
                        leaf.set_value(x)
                    d = dict(history=hist[t], data=X.tolist(), values=v, step=step)
                    e = expected(tree, X)
                    for name, got in (("tree.predict", tree.predict), ("model.predict", model.predict), ("tree.predict(X)", lambda: tree.predict(X)),
                                      ("model.predict(X)", lambda: model.predict(X)))[::1 if (s + f) % 2 else -1]:
                        g = got()
                        need(same(g, e), "%s does not match the current leaf values" % name, got=g, expected=e, **d)
                    v = nudge(v)
                    cov.transitions += 1
                cov.executions += 1
        cov.states += 1
    return cov


def run_big(item):
    cov = Coverage()
    X, y = big.data(item["data"])
    nt = item["nt"]
    model = Model(Data(X.copy(), y.copy()), Sigma(1.0, 1.0, 1.0), n_trees=nt, initializer=None)
    hs = [big.history(X, "mixed", 6 + (5 * i) % 13, i + 1) for i in range(nt)]
    G = big.queries(X, 30)
    for j in range(max(len(h) for h in hs)):
        for i, t in enumerate(model.trees):
            if j < len(hs[i]):
                real.do(t, hs[i][j][0])
            for k, leaf in enumerate(t.leaf_nodes):
                if (i + j + k) % 3 == 0:
                    leaf.set_value(0.25 * (k + 1) - 0.5 * i + j)
            cov.transitions += 1
            if (i + j) % 3 == 0:
                need(close(model.predict(), np.sum([expected(a, X) for a in model.trees], axis=0)),
                     "training prediction of the model is not the sum over current leaves", data=item["data"], step=j, tree=i)
        each = [expected(t, X) for t in model.trees]
        total = np.sum(each, axis=0)
        for t, e in zip(model.trees, each):
            need(close(t.predict(), e), "training prediction of a tree does not match its current leaves", data=item["data"], step=j)
        need(close(model.predict(), total), "training prediction of the model is not the sum over current leaves", data=item["data"], step=j)
        idx = [real.index(t) for t in model.trees]
        cs = [real.canon(t) for t in model.trees]
        out = np.array([sum(ix[ref.route(c, g)].current_value for ix, c in zip(idx, cs)) for g in G])
        need(close(model.predict(G), out), "model prediction of new rows is not the sum over current leaves", data=item["data"], step=j)
        cov.states += 1
        cov.executions += 1
    return cov


def run_many(item):
    """Models of many trees: one tree at a time is changed, and every prediction looked at."""
    cov = Coverage()
    X = ref.matrix([[0, 1, 2, 3, 4], [1, 0, 1, 2, 0]], 1)
    y = ref.targets(len(X))
    nt = item["nt"]
    model = Model(Data(X.copy(), y.copy()), Sigma(1.0, 1.0, 1.0), n_trees=nt, initializer=None)
    each = [expected(t, X) for t in model.trees]
    for j in range(2):
        for i, t in enumerate(model.trees):
            mv = ref.moves(real.canon(t), X)
            real.do(t, mv[(7 * i + j) % len(mv)][:4])
            if i % 3:
                for k, leaf in enumerate(t.leaf_nodes):
                    leaf.set_value(0.5 * k - 0.25 * (i % 5) + j)
            each[i] = expected(t, X)
            total = np.sum(each, axis=0)
            need(close(model.predict(), total), "training prediction of the model is not the sum over current leaves", trees=nt, tree=i, step=j)
            need(close(model.predict(X.copy()), total), "model prediction on the training covariates is not the sum over current leaves", trees=nt, tree=i, step=j)
            cov.transitions += 1
            cov.states += 1
    for i, v in enumerate(model.refreshed_trees()):
        need(close(v.nodes[0].data.y.values, y - (np.sum(each, axis=0) - each[i])), "a refreshed tree does not hold its residual", trees=nt, tree=i)
    cov.executions += 1
    return cov


def run_deep(item, X):
    cov = Coverage()
    y = ref.targets(len(X))
    order, hist = ref.all_trees(X, cap=item["cap"])
    for t in order[1:]:
        # predict at every step, with fresh values on the leaves
        tree = real.new_tree(X, y)
        for j, m in enumerate(hist[t]):
            real.do(tree, m)
            for i, leaf in enumerate(tree.leaf_nodes):
                if (i + j) % 2 == 0:
                    leaf.set_value(0.25 * (i + 1) + j)
            need(close(tree.predict(), expected(tree, X)), "training prediction of a tree does not match its current leaves",
                 history=hist[t][:j + 1], data=X.tolist())
            need(close(tree.predict(X), expected(tree, X)), "prediction on the training covariates does not match the current leaves",
                 history=hist[t][:j + 1], data=X.tolist())
            cov.transitions += 1
        for p, _, _, _ in ref.prunable(t, X):
            t2 = real.build(X, y, hist[t])
            for i, leaf in enumerate(t2.leaf_nodes):
                leaf.set_value(0.25 * (i + 1))
            t2.predict()
            real.do(t2, ("prune", p))
            need(close(t2.predict(), expected(t2, X)), "training prediction is wrong after a prune", history=hist[t], pruned=p, data=X.tolist())
            cov.transitions += 1
        cov.states += 1
        cov.executions += 1
    return cov

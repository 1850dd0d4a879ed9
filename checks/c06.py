"""C06: backfitting targets, over every history of visits and sweeps."""
import itertools

import numpy as np

from bartpy.data import Data
from bartpy.model import Model
from bartpy.samplers.leafnode import LeafNodeSampler
from bartpy.sigma import Sigma

from mc import real, ref
from mc.core import Coverage, close, need
from checks import big
from checks.c05 import Fixed, expected

VISIT = ["keep", "values", "grow", "prune", "sample", "grow+sample", "look"]
BETWEEN = ["keep", "values", "move", "look", "abandon0", "abandon1", "retarget"]
DATA = [[[0, 1]], [[0, 1, 2]], [[1, 0, 1]], [[0, 0]], [[0, 1, 0], [0, 0, 1]]]


def items(tier):
    q = tier == "quick"
    out = []
    for cols in DATA:
        for norm in ((False, True) if cols == DATA[1] or not q else (False,)):
            out.append({"cols": cols, "nt": 1, "sweeps": 3 if q else 4, "visit": VISIT, "between": BETWEEN if not q else BETWEEN[:5] + ["retarget"], "norm": norm, "first": None})
            for f in VISIT:
                out.append({"cols": cols, "nt": 2, "sweeps": 2, "visit": VISIT, "between": BETWEEN, "norm": norm, "first": f})
    for cols in DATA[:3]:
        for f in VISIT[:5]:
            out.append({"cols": cols, "nt": 3, "sweeps": 2, "visit": VISIT[1:5] if q else VISIT, "between": ["keep", "abandon1"], "norm": False, "first": f})
            if not q:
                out.append({"cols": cols, "nt": 2, "sweeps": 3, "visit": VISIT[1:6], "between": BETWEEN[:5], "norm": False, "first": f})
    out += [{"kind": "fresh", "cols": c, "nts": [1, 2, 3, 4, 7]} for c in DATA + [[[i % 5 for i in range(24)]]]]
    out += [{"kind": "big", "data": n, "nt": nt, "sweeps": 6} for n in big.MORE for nt in (4, 11)]
    out += [{"kind": "big", "data": n, "nt": 130, "sweeps": 2} for n in ("wide", "ends")]
    return out


def bounds(tier):
    return {"trees": "1-3", "sweeps": "1-3 (4)", "per visit": VISIT, "between sweeps": BETWEEN,
            "large": "models of 4 and 11 trees on %s, 6 sweeps; of 130 trees, 2 sweeps; of a fixed schedule of actions" % big.MORE, "histories": "every combination of visit actions and between-sweep actions"}


def run(item):
    if item.get("kind") == "big":
        cov = Coverage()
        X, _ = big.data(item["data"])
        nt, s = item["nt"], item["sweeps"]
        for k in range(4):
            one(X, nt, s, [VISIT[(i * (k + 2) + i // 7 + k) % len(VISIT)] for i in range(nt * s)], [BETWEEN[(3 * i + k) % len(BETWEEN)] for i in range(s - 1)], k % 2 == 1, cov)
            cov.states += 1
            cov.executions += 1
        return cov
    X = ref.matrix(item["cols"], 1)
    if item.get("kind") == "fresh":
        return run_fresh(item, X)
    cov = Coverage()
    nt, s = item["nt"], item["sweeps"]
    slots = [item["visit"]] * (nt * s) + [item["between"]] * (s - 1)
    if item["first"]:
        slots[0] = [item["first"]]
    for combo in itertools.product(*slots):
        one(X, nt, s, combo[:nt * s], combo[nt * s:], item["norm"], cov)
        cov.states += 1
        cov.executions += 1
    cov.sample({"data": X.tolist(), "trees": nt, "sweeps": s, "last": combo})
    return cov


def targets_ok(model, i, X, y, d):
    tree = model.trees[i]
    other = sum((expected(t, X) for j, t in enumerate(model.trees) if j != i), np.zeros(len(X)))
    target = y - other
    idx = real.index(tree)
    for path, sub, rows, _ in ref.walk(real.canon(tree), X):
        real.stats_ok(idx[path], X, target, rows, ["target", "sum"], tree_number=i, path=path, **d)


def act(model, i, a, step, X):
    tree = model.trees[i]
    t = real.canon(tree)
    if a in ("values", "grow", "prune"):
        mv = [m for m in ref.moves(t, X) if m[0] == a]
        if mv:
            real.do(tree, mv[step % len(mv)][:4])
        for j, leaf in enumerate(tree.leaf_nodes):
            leaf.set_value(0.5 + 0.25 * j - step)
    elif a in ("sample", "grow+sample"):
        mv = [m for m in ref.moves(t, X) if m[0] == "grow"]
        if a == "grow+sample" and mv:
            real.do(tree, mv[-1][:4])
        for leaf in tree.leaf_nodes:
            LeafNodeSampler(Fixed(0.75)).step(model, leaf)
    elif a == "look":
        model.residuals()
        got = tree.predict()
        need(close(got, expected(tree, X)), "training prediction of a tree is wrong", tree_number=i)


def one(X, nt, s, visits, between, norm, cov):
    y0 = ref.targets(len(X)) * 2
    y = (-0.5 + (y0 - y0.min()) / (y0.max() - y0.min())) if norm else y0
    model = Model(Data(X.copy(), y0.copy(), normalize=norm), Sigma(1.0, 1.0, 1.0), n_trees=nt, initializer=None)
    d = dict(data=X.tolist(), visits=visits, between=between, trees=nt)
    step = 0
    for sweep in range(s):
        count = 0
        for tree in model.refreshed_trees():
            need(count < nt and tree is model.trees[count], "trees are not handed out once each in order", visit=count, **d)
            targets_ok(model, count, X, y, dict(d, sweep=sweep))
            act(model, count, visits[sweep * nt + count], step, X)
            step += 1
            count += 1
            cov.transitions += 1
        need(count == nt, "a sweep did not hand out every tree once", got=count, **d)
        total = np.sum([expected(t, X) for t in model.trees], axis=0)
        need(close(model.residuals(), y - total, 1e-10, 1e-10), "residuals are not target minus current prediction", sweep=sweep, **d)
        if sweep < s - 1:
            b = between[sweep]
            cov.transitions += 1
            if b in ("values", "look"):
                act(model, nt - 1, b, step + 3, X)
            elif b == "move":
                act(model, 0, "grow", step + 1, X)
                act(model, nt - 1, "prune", step + 2, X)
            elif b.startswith("abandon"):
                g = model.refreshed_trees()
                for _ in range(min(nt, 1 + int(b[-1]))):
                    next(g)
                    i = min(nt - 1, int(b[-1]))
                act(model, i, "values", step + 5, X)
                g.close()
            elif b == "retarget":
                # someone gives a tree another target and looks at it
                i = (step + sweep) % nt
                model.trees[i].update_y(y * 3 + 1)
                for node in model.trees[i].nodes:
                    node.data.y.summed_y()
            total = np.sum([expected(t, X) for t in model.trees], axis=0)
            need(close(model.residuals(), y - total, 1e-10, 1e-10), "residuals are not target minus current prediction", after=b, **d)


def run_fresh(item, X):
    cov = Coverage()
    y0 = ref.targets(len(X)) + 3
    for nt in item["nts"]:
        for norm in (False, True):
            y = (-0.5 + (y0 - y0.min()) / (y0.max() - y0.min())) if norm else y0
            model = Model(Data(X.copy(), y0.copy(), normalize=norm), Sigma(1.0, 1.0, 1.0), n_trees=nt, initializer=None)
            need(len(model.trees) == nt == model.n_trees, "wrong number of trees", got=len(model.trees), expected=nt)
            need(len(set(map(id, model.trees))) == nt, "trees are shared")
            for t in model.trees:
                need(real.canon(t) is None, "a fresh tree is not a single leaf")
                real.stats_ok(real.root_of(t), X, y / nt, tuple(range(len(X))), data=X.tolist(), trees=nt)
            need(close(model.residuals(), y), "residuals of a fresh model are not the target", data=X.tolist())
            # a change of one tree must not reach another
            model.trees[0].update_y(y * 5)
            for t in model.trees[1:]:
                real.stats_ok(real.root_of(t), X, y / nt, tuple(range(len(X))), data=X.tolist(), trees=nt)
            cov.states += 1
            cov.executions += 1
            cov.transitions += nt
    return cov

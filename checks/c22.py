"""C22: oblivious tree sampler."""
import numpy as np

from bartpy.data import Data
from bartpy.model import Model, deep_copy_model
from bartpy.node import DecisionNode, LeafNode
from bartpy.samplers.leafnode import LeafNodeSampler
from bartpy.samplers.oblivioustrees.likihoodratio import UniformTreeMutationLikihoodRatio
from bartpy.samplers.oblivioustrees.proposer import UniformMutationProposer
from bartpy.samplers.oblivioustrees.treemutation import UnconstrainedTreeMutationSampler, get_tree_sampler
from bartpy.sigma import Sigma
from bartpy.sklearnmodel import SklearnModel

from mc import real, ref
from mc.core import Coverage, explore, need, close
from mc.rng import Controller
from checks import big, common
from checks.c03 import snapshot
from checks.c05 import Fixed


def items(tier):
    q = tier == "quick"
    out = []
    for cols, shift in common.datasets(tier, [(1, 1, 1), (2, 1, 1), (3, 1, 1), (2, 2, 1), (1, 2, 1)]):
        out.append({"kind": "bfs", "cols": cols, "shift": shift, "depth": 3 if q else 4, "nt": 1 + (shift % 2)})
    for cols, shift in common.datasets(tier, [(4, 1, 1), (3, 2, 3 if q else 1), (4, 2, 331 if q else 61)]):
        out.append({"kind": "bfs", "cols": cols, "shift": shift, "depth": 2 if q else 3, "nt": 1, "dev": None})
    for cols, shift in common.datasets(tier, [(5, 1, 29 if q else 3), (3, 3, 500 if q else 60)]):
        out.append({"kind": "bfs", "cols": cols, "shift": shift, "depth": 3, "nt": 1, "dev": 3 if q else 4})
    for cols, shift in common.datasets(tier, [(2, 1, 1), (3, 1, 1), (4, 1, 5 if q else 1), (3, 2, 13 if q else 3), (2, 2, 1)]):
        for u in (1e-12, 0.5):
            out.append({"kind": "fit", "cols": cols, "shift": shift, "u": u, "sweeps": 4})
    out += [{"kind": "bfs", "name": n, "depth": d, "nt": 1, "dev": 0} for n, d in (("binary", 5), ("wide", 3), ("tall", 6), ("spine", 6), ("near", 5), ("ends", 4), ("huge", 3))]
    for cols, shift in common.datasets(tier, [(3, 1, 1), (4, 1, 5 if q else 1), (2, 2, 3), (3, 2, 37 if q else 5)]):
        X = ref.matrix(cols, shift)
        order, hist = ref.all_trees(X, cap=30 if q else 200)
        out += [{"kind": "bfs", "cols": cols, "shift": shift, "depth": 2, "nt": 1, "dev": 2 if q else 4, "start": hist[t]} for t in order[::2 if q else 1] if t is not None]
    for seed in range(1 if q else 6):
        out += [{"kind": "bfs", "name": n, "depth": len(s), "nt": 1, "script": s, "seed": seed} for n, s in (("tall", "GGGGGGPPGP"), ("tall", "GGGGGGGPGPP"), ("tall", "GGGGGGGGPGP"), ("binary", "GGGGGPGGPPP"), ("spine", "GGGGGPGPP"))]
    return out


def bounds(tier):
    return {"data": "all covariate orders of 1-3 rows x 1 column, 1-2 rows x 2 columns; 4x1; some of 3x2, 4x2, 5x1, 3x3",
            "steps": "all outcomes of 2 to %d updates: kind of move, every leaf's variable and value, accepted or not" % (3 if tier == "quick" else 4),
            "acceptance": ["decided freely", "the shipped ratio with u close to 0 and 0.5"], "large": "one path of up to 6 updates on each of %s, scripted paths of up to 11 updates (256 leaves)" % big.MORE, "queries": "grid of values at, between and beyond the data"}


class Decided:
    """A ratio that makes the update accept or reject as decided."""

    def __init__(self, accept):
        self.accept = accept

    def log_probability_ratio(self, model, tree, mutation):
        return np.inf if self.accept else -np.inf

    def log_method_ratio(self, tree, mutations):
        return 0.0


def form(tree, X):
    """path -> (node, rows) by child links, with rows by a reference evaluation of the split conditions."""
    out = {}

    def rec(node, path, rows):
        need(len(path) < 300, "child links do not end")
        out[path] = (node, rows)
        if type(node) == DecisionNode:
            if ref.splittable(X, rows):
                v, val = real.cond_of(node)
                l, r = tuple(i for i in rows if X[i, v] <= val), tuple(i for i in rows if X[i, v] > val)
                need(l and r, "a leaf was split into parts one of which is empty", rows=rows, variable=v, value=val)
            else:
                l, r = rows, rows
            rec(node.left_child, path + (0,), l)
            rec(node.right_child, path + (1,), r)
    rec(real.root_of(tree), (), tuple(range(len(X))))
    return out


def reach(tree, X, x):
    """Leaves a row of covariates can fall into, walking from the root."""
    f = form(tree, X)
    out, todo = [], [()]
    while todo:
        p = todo.pop()
        node, rows = f[p]
        if type(node) == LeafNode:
            out.append(node)
        elif ref.splittable(X, rows):
            v, val = real.cond_of(node)
            todo.append(p + ((0,) if x[v] <= val else (1,)))
        else:
            todo += [p + (0,), p + (1,)]
    return out


def check_tree(tree, X, y, G, **d):
    f = form(tree, X)
    listed = list(tree.nodes)
    need(len(set(map(id, listed))) == len(listed), "a node is listed twice", **d)
    need(set(map(id, listed)) == {id(n) for n, _ in f.values()}, "listed nodes differ from the nodes reachable from the root", listed=len(listed), reachable=len(f), **d)
    for p, (n, rows) in f.items():
        need(n.depth == len(p), "wrong depth", path=p, depth=n.depth, **d)
        need(real.rows_of(n) == rows, "a node holds other rows than those routed to it", path=p, got=real.rows_of(n), expected=rows, **d)
        real.stats_ok(n, X, y, rows, path=p, **d)
    leaves = [n for n, _ in f.values() if type(n) == LeafNode]
    need(sorted(map(id, tree.leaf_nodes)) == sorted(map(id, leaves)), "leaf list is wrong", **d)
    pr = [n for n, _ in f.values() if type(n) == DecisionNode and type(n.left_child) == LeafNode and type(n.right_child) == LeafNode]
    need(sorted(map(id, tree.prunable_decision_nodes)) == sorted(map(id, pr)), "prunable node list is wrong", **d)
    # predictions: leaves get values of their own
    old = [l.current_value for l in tree.leaf_nodes]
    for j, l in enumerate(tree.leaf_nodes):
        l.set_value(j + 1.25)
    a, b = np.array(tree.predict(), dtype=float), np.array(tree.predict(X.copy()), dtype=float)
    need(close(a, b), "training prediction differs from prediction on the training covariates", got=a.tolist(), expected=b.tolist(), **d)
    out = np.array(tree.predict(G), dtype=float)
    cond = {id(l): np.asarray(l.split.condition(G)) for l in tree.leaf_nodes}
    for i, x in enumerate(G):
        r = reach(tree, X, x)
        need(out[i] in [l.current_value for l in r], "prediction is not the value of a leaf the row falls into", row=x.tolist(), got=out[i],
             expected=[l.current_value for l in r], **d)
        need({k for k, c in cond.items() if c[i]} == {id(l) for l in r}, "a row is not covered by exactly the leaves it falls into", row=x.tolist(), **d)
    for l, v in zip(tree.leaf_nodes, old):
        l.set_value(v)
    return f


def new_model(X, y, nt):
    return Model(Data(X.copy(), y.copy()), Sigma(1.0, 1.0, 1.0), n_trees=nt, initializer=None)


def run(item):
    return run_bfs(item) if item["kind"] == "bfs" else run_fit(item)


class Scripted:
    """Accepts everything; the kinds of the moves as given, the rest from a fixed sequence."""
    truncated = False

    def __init__(self, kinds, seed):
        self.kinds, self.r = list(kinds), big.lcg(seed + 1)
        self.k = -1

    def pick(self, n, w=None, what=""):
        if what == "accept":
            self.k += 1
            return 0
        if what == "batch" and n == 2:
            return 0 if self.kinds[min(self.k, len(self.kinds) - 1)] == "G" else 1
        alive = [i for i in range(n) if w is None or w[i] > 0]
        return alive[self.r(len(alive))]


def run_bfs(item):
    cov = Coverage()
    if "name" in item:
        X, y = big.data(item["name"])
        G = big.queries(X, 10)[-12:]
    else:
        X = ref.matrix(item["cols"], item["shift"])
        y = ref.targets(len(X))
        G = ref.grid(X, cap=80)
    n = len(X)
    seen = set()

    def path(ch):
        model = new_model(X, y, item["nt"])
        tree = model.trees[-1]
        for m in item.get("start", ()):
            real.do(tree, (m[0], tuple(m[1])) + tuple(m[2:]))
        for t in model.trees:
            t.update_y(y)
        history = [list(m) for m in item.get("start", ())]
        with Controller(pick=ch.pick, retry=True):
            for s in range(item["depth"]):
                before, f0 = snapshot(tree), form(tree, X)
                leaves = {p: rows for p, (nd, rows) in f0.items() if type(nd) == LeafNode}
                growable = any(ref.splittable(X, r) for r in leaves.values())
                prunable = [p for p, (nd, _) in f0.items() if type(nd) == DecisionNode and p + (0,) in leaves and p + (1,) in leaves]
                accept = ch.pick(2, None, "accept") == 0
                if s + 1 < item["depth"] and not accept:
                    accept_only = True      # a rejection is explored as the last step of a path
                else:
                    accept_only = False
                sampler = UnconstrainedTreeMutationSampler(UniformMutationProposer(0.5, 0.5), Decided(accept), Fixed(0.5))
                d = dict(data=X.tolist(), history=history)
                res = sampler.step(model, tree)
                cov.transitions += 1
                if not growable and not prunable:
                    need(res is None and snapshot(tree) == before, "a tree without moves changed", **d)
                    return tuple(history)
                if not accept:
                    need(not res and snapshot(tree) == before, "a rejected update changed the tree", **d)
                    history.append("rejected")
                    if accept_only:
                        return None
                    continue
                need(res, "an accepted update is not reported", **d)
                kinds = {m.kind for m in res}
                need(len(kinds) == 1, "an update mixes moves", **d)
                kind = kinds.pop()
                history.append(kind)
                f1 = form(tree, X)
                if kind == "grow":
                    need(growable, "grew a tree without a splittable leaf", **d)
                    need(len(res) == len(leaves), "not every leaf was split", got=len(res), expected=len(leaves), **d)
                    want = set(f0) | {p + (s_,) for p in leaves for s_ in (0, 1)}
                else:
                    need(prunable, "pruned a tree without a prunable node", **d)
                    need(len(res) == len(prunable), "not every prunable node was pruned", got=len(res), expected=len(prunable), **d)
                    want = set(f0) - {p + (s_,) for p in prunable for s_ in (0, 1)}
                need(set(f1) == want, "an accepted %s gives another structure" % kind, got=sorted(f1), expected=sorted(want), **d)
                for p, (nd, rows) in f0.items():
                    if p in f1:
                        need(f1[p][1] == rows, "an update changed the rows of a node it keeps", path=p, **d)
                check_tree(tree, X, y, G, **d)
                # new targets reach every node
                y2 = y * 0.5 + s + 1
                tree.update_y(y2)
                for p, (nd, rows) in f1.items():
                    real.stats_ok(nd, X, y2, rows, ["target", "sum"], path=p, **d)
                tree.update_y(y)
                for leaf in tree.leaf_nodes:
                    LeafNodeSampler(Fixed(0.5)).step(model, leaf)
                seen.add((kind,) + tuple(sorted((p, r) for p, (_, r) in f1.items())))
                m2 = deep_copy_model(model)
                need(close(m2.predict(X), model.predict()), "a stored sample predicts differently from the model it was taken of", **d)
        return tuple(map(str, history))

    if "script" in item:
        ch = Scripted(item["script"], item["seed"])
        runs = [(ch, path(ch))]
    else:
        runs = explore(path, limit=60, max_deviations=item.get("dev"))
    for ch, out in runs:
        cov.executions += 1
        cov.truncated += bool(ch.truncated)
        cov.outcomes.add(str(out))
    cov.states += len(seen)
    cov.sample({"data": X.tolist(), "depth": item["depth"]})
    return cov


def run_fit(item):
    """The shipped sampler in full fits, every outcome of the moves for a few sweeps."""
    cov = Coverage()
    X = ref.matrix(item["cols"], item["shift"])
    n = len(X)
    y = ref.targets(n)
    G = ref.grid(X, cap=60)

    def path(ch):
        base = get_tree_sampler(0.5, 0.5)
        ts = UnconstrainedTreeMutationSampler(base.proposer, base.likihood_ratio, Fixed(item["u"]))
        est = SklearnModel(n_trees=2, n_chains=1, n_samples=item["sweeps"], n_burn=0, thin=1.0, n_jobs=1, store_in_sample_predictions=True,
                           store_acceptance_trace=True, tree_sampler=ts)
        est.schedule.leaf_sampler = common.own_leaf_sampler()
        zs = [0]

        def z():
            zs[0] += 1
            return ((zs[0] * 7) % 11 - 5) / 4.0
        with Controller(pick=ch.pick, z=z, g=1.0, retry=True):
            est.fit(X.copy(), y.copy())
        return est
    for ch, est in explore(path, limit=40, max_deviations=2):
        cov.executions += 1
        if ch.truncated:
            cov.truncated += 1
            continue
        d = dict(data=X.tolist(), choices=ch.choices, u=item["u"])
        need(len(est.model_samples) == item["sweeps"], "samples are missing", **d)
        for s, p in zip(est.model_samples, est.prediction_samples):
            need(close(s.predict(X), p), "training prediction differs from prediction on the training covariates", got=np.asarray(p).tolist(), expected=s.predict(X).tolist(), **d)
            for t in s.trees:
                f = form(t, X)
                need(set(map(id, t.nodes)) == {id(nd) for nd, _ in f.values()}, "listed nodes differ from the nodes reachable from the root", **d)
                cov.states += 1
                cov.outcomes.add(tuple(sorted(f)))
        need(np.all(np.isfinite(est.predict(G))), "a prediction is not finite", **d)
        cov.transitions += 2 * item["sweeps"]
    return cov

"""C13: stored samples are faithful, frozen snapshots."""
import numpy as np

from bartpy.data import Data
from bartpy.model import Model, deep_copy_model
from bartpy.node import DecisionNode, LeafNode
from bartpy.samplers.leafnode import LeafNodeSampler
from bartpy.samplers.modelsampler import ModelSampler
from bartpy.samplers.schedule import SampleSchedule
from bartpy.samplers.oblivioustrees.proposer import UniformMutationProposer as ObliviousProposer
from bartpy.samplers.oblivioustrees.treemutation import UnconstrainedTreeMutationSampler as OBLIVIOUS
from bartpy.sigma import Sigma
from bartpy.trace import TraceLogger
from bartpy.tree import deep_copy_tree

from mc import real, ref
from mc.rng import Controller
from mc.core import Coverage, explore, need
from checks import big, common
from checks.c05 import Fixed



class Always:
    def log_probability_ratio(self, model, tree, mutation):
        return np.inf

    def log_method_ratio(self, tree, mutations):
        return 0.0


PLAIN = ["values", "sample", "sigma", "prior", "update_y", "predict", "sweep", "snapshot", "edit other snapshot", "data"]


def items(tier):
    q = tier == "quick"
    out = []
    sets = [([[0, 1]], 1, 3), ([[1, 0, 2]], 1, 2), ([[0, 1], [1, 0]], 1, 2), ([[0, 1, 1]], 2, 2), ([[2, 0, 1, 3]], 1, 2), ([[0, 0]], 2, 3)]
    for cols, nt, depth in sets:
        X = ref.matrix(cols, 1)
        order, _ = ref.all_trees(X, cap=20)
        for i in range(len(order)):
            out.append({"kind": "ops", "cols": cols, "nt": nt, "depth": depth if q else depth + 1, "at": i})
    out += [{"kind": "run", "cols": c, "nt": nt, "sweeps": s} for c in ([[0, 1]], [[1, 0, 2]], [[0, 1, 0], [1, 1, 0]])
            for nt, s in ([(1, 4), (2, 3)] + ([] if q else [(1, 6), (3, 2), (2, 4)]))]
    out += [{"kind": "deep", "cols": c, "cap": 60 if q else 1500} for c, _ in common.deep_datasets(tier)]
    out += [{"kind": "padded", "cols": c, "sweeps": 3 if q else 4} for c in ([[0]], [[0, 0]], [[0, 1]], [[1, 0, 2]], [[0, 0, 1]], [[0, 1], [1, 0]])]
    out += [{"kind": "big", "name": n, "nt": nt} for n in big.MORE for nt in (2, 9)] + [{"kind": "big", "name": n, "nt": 1} for n in ("tall", "binary")]
    return out


def bounds(tier):
    return {"snapshot points": "every tree of the data sets", "later operations": "every sequence of 2-3 (4) of all moves and " + ", ".join(PLAIN),
            "large": "models of 2 and 9 deep trees on %s, one tree of up to 91 leaves, snapshots along one long history" % big.MORE, "oblivious": "every sequence of up to 3 (4) accepted oblivious updates, stored after each", "runs": "every accept/reject/move pattern of short sampling runs with every sample stored"}


def cond_of(node):
    c = node.most_recent_split_condition()
    return None if c is None else real.cond_of(node)


def tree_print(tree):
    idx = real.index(tree)
    need(len(tree.nodes) == len(idx) and set(map(id, tree.nodes)) == set(id(n) for n in idx.values()),
         "the nodes of a stored tree are not the nodes linked from its root", listed=len(tree.nodes), linked=len(idx))
    return [(p, n.depth, type(n).__name__, float(n.current_value) if type(n) == LeafNode else cond_of(n)) for p, n in sorted(idx.items())]


def print_of(m, G):
    return {"trees": [tree_print(t) for t in m.trees], "sigma": (float(m.sigma.current_value()), float(m.sigma.alpha), float(m.sigma.beta),
            float(m.sigma.current_unnormalized_value())), "prior": (float(m.alpha), float(m.beta), float(m.k), int(m.n_trees), float(m.sigma_m)),
            "prediction": np.asarray(m.predict(G), dtype=float).tolist(), "per tree": [np.asarray(t.predict(G), dtype=float).tolist() for t in m.trees]}


def differs(a, b):
    return [k for k in a if a[k] != b[k]]


def take(model, k):
    if k % 2:
        return TraceLogger()["Model"](model)
    return deep_copy_model(model)


def ops_for(trees, X):
    out = []
    for i, t in enumerate(trees):
        out += [("move", i, m[:4]) for m in ref.moves(t, X)]
    return out + [(p,) for p in PLAIN]


def build(X, y, nt, hist):
    sg = Sigma(0.7, 0.3, 2.5)
    sg.set_value(0.6)
    model = Model(Data(X.copy(), y.copy()), sg, n_trees=nt, alpha=0.8, beta=1.25, k=3.0, initializer=None)
    for m in hist:
        real.do(model.trees[0], m)
    for i, t in enumerate(model.trees):
        for j, leaf in enumerate(t.leaf_nodes):
            leaf.set_value(0.5 * (j + 1) - i)
    return model


def apply(model, op, j, X, y, snaps):
    k = op[0]
    tree = model.trees[j % len(model.trees)]
    if k == "move":
        real.do(model.trees[op[1]], op[2])
        for i, leaf in enumerate(model.trees[op[1]].leaf_nodes):
            leaf.set_value(7.0 + i)
    elif k == "values":
        for t in model.trees:
            for i, leaf in enumerate(t.leaf_nodes):
                leaf.set_value(11.0 + i + j)
    elif k == "sample":
        for t in model.trees:
            for leaf in t.leaf_nodes:
                LeafNodeSampler(Fixed(0.75)).step(model, leaf)
    elif k == "sigma":
        model.sigma.set_value(3.0 + j)
    elif k == "prior":
        model.sigma.alpha, model.sigma.beta, model.alpha, model.beta, model.k = 5.0, 6.0, 0.1, 0.2, 9.0
    elif k == "update_y":
        tree.update_y(y * 4)
    elif k == "predict":
        model.predict()
        for s, _ in snaps:
            s.predict(X)
    elif k == "sweep":
        for t in model.refreshed_trees():
            t.leaf_nodes[0].set_value(0.25 - j)
    elif k == "edit other snapshot" and snaps:
        s = take(model, 0)
        for t in s.trees:
            for leaf in t.leaf_nodes:
                leaf.set_value(-50.0)
        s.sigma.set_value(77.0)
    elif k == "data":
        model.data.y.values[:] = 0.125
        model.data.X.values[:] = 9.0


def run(item):
    if item["kind"] == "big":
        return run_big(item)
    return {"ops": run_ops, "run": run_run, "deep": run_deep, "padded": run_padded}[item["kind"]](item, ref.matrix(item["cols"], 1))


def run_ops(item, X):
    cov = Coverage()
    y = ref.targets(len(X))
    G = ref.grid(X, cap=60)
    order, hist = ref.all_trees(X, cap=20)
    t0 = order[item["at"]]
    nt = item["nt"]

    def check(ops):
        model = build(X, y, nt, hist[t0])
        live = print_of(model, G)
        s = take(model, len(ops))
        d = dict(tree=t0, data=X.tolist(), later=ops)
        a = print_of(s, G)
        need(a == live, "a stored sample does not reproduce the model it was taken from", differs=differs(live, a), **d)
        snaps = [(s, live)]
        for j, op in enumerate(ops):
            if op[0] == "snapshot":
                m = take(model, j)
                p = print_of(model, G)
                need(print_of(m, G) == p, "a stored sample does not reproduce the model it was taken from", **d)
                snaps.append((m, p))
            else:
                apply(model, op, j, X, y, snaps)
        for i, (m, p) in enumerate(snaps):
            b = print_of(m, G)
            need(b == p, "a stored sample changed after it was taken", sample=i, differs=differs(p, b), **d)
        cov.executions += 1
        cov.transitions += len(ops)

    def rec(trees, ops):
        cov.states += 1
        check(ops)
        if len(ops) < item["depth"]:
            for op in ops_for(trees, X):
                ts = trees
                if op[0] == "move":
                    ts = list(trees)
                    ts[op[1]] = ref.apply(ts[op[1]], op[2])
                if op[0] == "data" and len(ops) + 1 < item["depth"]:
                    continue
                rec(ts, ops + (op,))
    rec([t0] + [None] * (nt - 1), ())
    cov.sample({"data": X.tolist(), "snapshot of": str(t0)})
    return cov


def run_big(item):
    """Models of several deep trees; snapshots at several points of a long history, all compared at its end."""
    cov = Coverage()
    X, y = big.data(item["name"])
    G = big.queries(X, 20)
    nt = item["nt"]
    hs = [big.history(X, "mixed", 8 + (5 * i) % 11, i + 1) for i in range(nt)] if nt > 1 else [big.history(X, "bushy", 90)]
    model = build(X, y, nt, [])
    snaps = []
    for j in range(max(len(h) for h in hs)):
        for i in range(nt):
            if j < len(hs[i]):
                apply(model, ("move", i, hs[i][j][0]), j, X, y, snaps)
                cov.transitions += 1
        apply(model, (PLAIN[j % 7],), j, X, y, snaps)
        if j % (3 if nt > 1 else 11) == 0:
            p = print_of(model, G)
            s = take(model, j)
            need(print_of(s, G) == p, "a stored sample does not reproduce the model it was taken from", differs=differs(p, print_of(s, G)), data=item["name"], step=j)
            snaps.append((s, p))
            cov.states += 1
    for i, (s, p) in enumerate(snaps):
        need(print_of(s, G) == p, "a stored sample changed after it was taken", sample=i, differs=differs(p, print_of(s, G)), data=item["name"])
        cov.executions += 1
    return cov


class Script:
    def __init__(self, ch, X):
        self.ch, self.X, self.n = ch, X, 0

    def step(self, model, tree):
        mv = [m[:4] for m in ref.moves(real.canon(tree), self.X)]
        k = self.ch.pick(1 + len(mv))
        return None if k == 0 else real.do(tree, mv[k - 1])


class Leaf:
    def __init__(self):
        self.n = 0

    def step(self, model, node):
        self.n += 1
        node.set_value(0.125 * self.n)


class Sig:
    def __init__(self, X, G):
        self.prints, self.X, self.G, self.preds = [], X, G, []

    def step(self, model, sigma):
        sigma.set_value(1.0 + len(self.prints))
        self.prints.append(print_of(model, self.G))
        self.preds.append(np.sum([real.leaf_prediction(t, len(self.X)) for t in model.trees], axis=0))


def run_run(item, X):
    cov = Coverage()
    y = ref.targets(len(X))
    G = ref.grid(X, cap=40)

    def one(ch):
        sig = Sig(X, G)
        model = Model(Data(X.copy(), y.copy()), Sigma(0.7, 0.3, 2.0), n_trees=item["nt"], alpha=0.8, beta=1.25, k=3.0, initializer=None)
        out = ModelSampler(SampleSchedule(Script(ch, X), Leaf(), sig)).samples(model, item["sweeps"], 0, 1.0, True, True)
        d = dict(data=X.tolist(), choices=ch.choices)
        need(len(out["model"]) == item["sweeps"], "wrong number of stored samples", got=len(out["model"]), **d)
        for i, m in enumerate(out["model"]):
            p = print_of(m, G)
            need(p == sig.prints[i], "a stored sample is not the model as it was after its sweep", sample=i, differs=differs(sig.prints[i], p), **d)
            need(np.allclose(out["in_sample_predictions"][i], sig.preds[i]), "a stored training prediction changed after it was taken", sample=i, **d)
        return True
    for ch, _ in explore(one):
        cov.executions += 1
        cov.states += 1
        cov.transitions += item["sweeps"] * item["nt"]
    return cov


def run_padded(item, X):
    """Oblivious trees, whose leaves that can't be split have levels without a split below them."""
    cov = Coverage()
    y = ref.targets(len(X))
    G = ref.grid(X, cap=40)

    def one(ch):
        model = build(X, y, 1, ())
        tree, kinds = model.trees[0], []
        snaps = []
        with Controller(pick=ch.pick, retry=True):
            for s in range(item["sweeps"]):
                res = OBLIVIOUS(ObliviousProposer(0.5, 0.5), Always(), Fixed(0.5)).step(model, tree)
                if not res:
                    break
                kinds.append(res[0].kind)
                for i, leaf in enumerate(tree.leaf_nodes):
                    leaf.set_value(0.5 * i + s)
                p = print_of(model, G)
                m = take(model, s)
                need(print_of(m, G) == p, "a stored sample does not reproduce the model it was taken from", differs=differs(p, print_of(m, G)), data=X.tolist(), updates=kinds)
                snaps.append((m, p))
        for i, (m, p) in enumerate(snaps):
            need(print_of(m, G) == p, "a stored sample changed after it was taken", sample=i, data=X.tolist(), updates=kinds)
        return len(snaps)
    for ch, n in explore(one, limit=30):
        cov.executions += 1
        cov.states += n
        cov.transitions += n
        cov.truncated += bool(ch.truncated)
    return cov


def run_deep(item, X):
    cov = Coverage()
    y = ref.targets(len(X))
    G = ref.grid(X, cap=80)
    order, hist = ref.all_trees(X, cap=item["cap"])
    for t in order:
        for m in ref.moves(t, X)[-6:] + ref.moves(t, X)[:3]:
            model = build(X, y, 1, hist[t])
            live = print_of(model, G)
            s = take(model, 1)
            need(print_of(s, G) == live, "a stored sample does not reproduce the model it was taken from", tree=t, data=X.tolist())
            need(tree_print(deep_copy_tree(model.trees[0])) == live["trees"][0], "a copy of a tree differs from it", tree=t, data=X.tolist())
            apply(model, ("move", 0, m[:4]), 1, X, y, [])
            apply(model, ("sweep",), 1, X, y, [])
            need(print_of(s, G) == live, "a stored sample changed after it was taken", tree=t, later=m, data=X.tolist())
            cov.executions += 1
            cov.transitions += 2
        cov.states += 1
    return cov

"""C01: leaves partition feature space."""
import itertools
from operator import gt, le

import numpy as np

from bartpy.splitcondition import CombinedCondition, SplitCondition
from bartpy.split import Split
from bartpy.data import Data
from bartpy.tree import deep_copy_tree

from mc import real, ref, walk
from mc.core import Coverage, need
from checks import big, common


def items(tier):
    out = [{"kind": "trees", "cols": c, "shift": s} for c, s in common.datasets(tier)]
    out += [{"kind": "trees", "cols": c, "shift": 0, "cap": cap} for c, cap in common.deep_datasets(tier)]
    out += [{"kind": "sampler", "cols": c, "depth": d, "cap": cap} for c, d, cap in walk.menu(tier)]
    out += [{"kind": "big", "case": c} for c in big.cases(tier)]
    firsts = list(range(12))
    out += [{"kind": "conds", "first": f, "len": 3 if tier == "quick" else 4} for f in firsts]
    return out


def bounds(tier):
    return {"datasets": common.describe(tier), "conditions": "all sequences of conditions over 2 variables x 3 values x 2 "
            "operators up to length %d, in every order and also contradictory" % (3 if tier == "quick" else 4),
            "sampler": "every sequence of up to 3-6 accepted updates of the default sampler, all random choices", "large": big.describe(tier), "query rows": "full product of per-column values, midpoints, neighbours and +-1e300"}


def run(item):
    return {"trees": run_trees, "conds": run_conds, "sampler": run_sampler, "big": run_big}[item["kind"]](item)


def run_sampler(item):
    """Trees made by the default tree update instead of by moves of the harness."""
    cov = Coverage()
    X = ref.matrix(item["cols"], 1)
    y = ref.targets(len(X))
    G = np.vstack([ref.grid(X, cap=60), X])
    walk.walks(common.own_sampler, X, y, item["depth"], item["cap"], cov,
               lambda model, tree, t, d: check_tree(tree, t, X, G, d["choices"]))
    return cov


def run_big(item):
    cov = Coverage()
    name, style, steps = item["case"]
    X, y = big.data(name)
    G = np.vstack([big.queries(X)[len(X):], X])
    tree = real.new_tree(X, y)
    done = []
    for j, (m, t) in enumerate(big.history(X, style, steps)):
        real.do(tree, m)
        done.append(m)
        if j % 4 == 0 or j + 1 == steps:
            check_tree(tree, t, X, G, done)
            cov.executions += 1
        cov.transitions += 1
        cov.states += 1
    check_tree(tree, t, X, G, done)
    cov.sample({"data": name, "leaves": len(tree.leaf_nodes), "depth": max(n.depth for n in tree.nodes)})
    return cov


def run_trees(item):
    cov = Coverage()
    X = ref.matrix(item["cols"], item["shift"])
    n = len(X)
    y = ref.targets(n)
    G = np.vstack([ref.grid(X, cap=400), X])
    order, hist = ref.all_trees(X, cap=item.get("cap"))
    for t in order:
        cov.states += 1
        tree = real.build(X, y, hist[t])
        check_tree(tree, t, X, G, hist[t])
        cov.executions += 1
        cov.transitions += len(hist[t])
        cov.outcomes.add(hash(str(t)))
        # histories that pass through larger trees: grow every leaf, prune back, then look again
        for m in ref.moves(t, X):
            t2 = ref.apply(t, m)
            tree2 = real.build(X, y, hist[t] + (m,))
            cov.transitions += 1
            need(real.canon(tree2) == t2, "a move did not give the expected tree", history=hist[t] + (m,), got=real.canon(tree2), expected=t2)
            if m[0] == "prune":
                check_tree(tree2, t2, X, G, hist[t] + (m,))
                cov.executions += 1
    cov.sample({"X": X.tolist(), "trees": len(order), "last": str(order[-1])})
    return cov


def check_tree(tree, t, X, G, history):
    n = len(X)
    d = dict(X=X.tolist(), tree=t, history=history)
    need(real.canon(tree) == t, "history of moves gave another tree", got=real.canon(tree), **d)
    idx = real.index(tree)
    routes = [ref.route(t, g) for g in G]
    vals = {}
    for path, sub, rows, depth in ref.walk(t, X):
        node = idx[path]
        need(real.rows_of(node) == rows, "a node holds other training rows than those routed to it", path=path,
             got=real.rows_of(node), expected=rows, **d)
        need(tuple(np.nonzero(~np.asarray(node.data.mask))[0]) == rows, "mask of a node disagrees with its rows", path=path, **d)
        got = np.asarray(node.split.condition(G)).astype(bool)
        exp = np.array([r[:len(path)] == path for r in routes])
        if not np.array_equal(got, exp):
            i = int(np.nonzero(got != exp)[0][0])
            need(False, "a row is %s a node it should %s" % (("in", "not be in") if got[i] else ("not in", "be in")),
                 row=G[i].tolist(), path=path, **d)
        if sub is None:
            vals[path] = 1.1 + len(vals) * 0.375
            node.set_value(vals[path])
    exp = np.array([vals[r] for r in routes])
    got = tree.predict(G)
    need(np.array_equal(got, exp), "out of sample prediction is not the value of the row's leaf", **d)
    got = deep_copy_tree(tree).predict(G)
    need(np.array_equal(got, exp), "stored copy predicts other values", **d)
    need(np.array_equal(tree.predict(G[::-1]), exp[::-1]), "prediction of a row depends on the other rows", **d)
    for i in (0, len(G) // 2, len(G) - 1):
        need(np.array_equal(tree.predict(G[i:i + 1]), exp[i:i + 1]), "prediction of a single row differs", **d)
    for rows, same in (big.other_types(G[::3], X) if len(history) % 2 == 0 else ()):
        need(np.array_equal(tree.predict(rows), np.array([vals[ref.route(t, g)] for g in same])), "prediction of rows of another number type is not the value of the row's leaf", type=str(rows.dtype), **d)
    need(np.array_equal(tree.predict(), exp[-n:]), "training prediction differs from routing", **d)


def run_conds(item):
    cov = Coverage()
    vals = [0.0, 1.0, 2.5]
    alphabet = [(v, x, o) for v in (0, 1) for x in vals for o in (le, gt)]
    pts = [-1e300, -1.0, 0.0, 0.5, 1.0, 1.75, 2.5, np.nextafter(2.5, 3), 1e300]
    G = np.array(list(itertools.product(pts, pts)))
    X = np.array(list(itertools.product([0.0, 1.0, 2.5, 3.0], repeat=2)))
    truth = {a: (a[2](G[:, a[0]], a[1]), a[2](X[:, a[0]], a[1])) for a in alphabet}
    seqs = [(alphabet[item["first"]],) + s for k in range(item["len"]) for s in itertools.product(alphabet, repeat=k)]
    if item["first"] == 0:
        seqs.append(())
    y = ref.targets(len(X))
    base = Split(Data(X, y))
    for s in seqs:
        cov.states += 1
        cov.transitions += len(s)
        e1, e2 = np.ones(len(G), bool), np.ones(len(X), bool)
        for a in s:
            e1 = e1 & truth[a][0]
            e2 = e2 & truth[a][1]
        name = [(v, x, o.__name__) for v, x, o in s]
        cs = [SplitCondition(*a) for a in s]
        cc = CombinedCondition([0, 1], cs)
        need(np.array_equal(cc.condition(G), e1), "combined condition is not the conjunction of its conditions", conditions=name)
        acc = CombinedCondition([0, 1], [])
        sp = base
        for c in cs:
            acc = acc + SplitCondition(c.splitting_variable, c.splitting_value, c.operator)
            sp = sp + SplitCondition(c.splitting_variable, c.splitting_value, c.operator)
        need(np.array_equal(acc.condition(G), e1), "conditions added one by one are not their conjunction", conditions=name)
        need(np.array_equal(sp.condition(G), e1), "out of sample condition of a split is not the conjunction", conditions=name)
        need(np.array_equal(sp.condition(), e2), "training rows of a split are not those meeting its conditions", conditions=name)
        need(int(sp.data.X.n_obsv) == int(e2.sum()), "row count of a split is wrong", conditions=name)
        mr = sp.most_recent_split_condition()
        need((mr is None) == (not s) and (mr is None or mr == SplitCondition(*s[-1])), "most recent condition is wrong", conditions=name)
        cov.executions += 1
        cov.outcomes.add(e1.tobytes())
    cov.sample({"conditions": name})
    return cov

"""C02: cached node statistics equal recomputation, whatever was asked, split, pruned or replaced before."""
import itertools
import math

import numpy as np

from bartpy.data import Data, make_bartpy_data
from bartpy.node import LeafNode, split_node
from bartpy.split import Split
from bartpy.tree import Tree, mutate
from bartpy.mutation import GrowMutation

from mc import real, ref, walk
from mc.core import Coverage, need
from checks import big, common

ORDERS = [list(real.QUERIES), list(reversed(list(real.QUERIES)))]
# what happens in the gap before a move: queries that fill caches, and/or a new target
GAPS = [(), ("count", "sum"), ("any",), ("splittable",), ("unique", "max"), ("prop",), ("UPDATE",), ("sum", "UPDATE"),
        ("UPDATE", "sum"), ("UPDATE", "sum", "INPLACE"), tuple(real.QUERIES)]
SHORT = [(), ("any",), ("UPDATE", "INPLACE"), tuple(real.QUERIES)]


def items(tier):
    out = [{"kind": "hist", "cols": c, "shift": s, "gaps": "full", "depth": 2 if tier == "quick" else 3}
           for c, s in common.datasets("quick", [(1, 1, 1), (2, 1, 1), (3, 1, 1), (2, 2, 1)])]
    out += [{"kind": "hist", "cols": c, "shift": s, "gaps": "full" if tier != "quick" else "short", "depth": 2}
            for c, s in common.datasets(tier, [(4, 1, 1 if tier != "quick" else 2), (3, 2, 1 if tier != "quick" else 4)])]
    out += [{"kind": "hist", "cols": c, "shift": s, "gaps": "short", "depth": 3}
            for c, s in common.datasets(tier, [(3, 1, 1), (4, 1, 11)])]
    out += [{"kind": "masks", "cols": c, "shift": s} for c, s in common.datasets(tier, [(2, 1, 1), (3, 1, 1), (4, 1, 2), (2, 2, 1), (3, 2, 9 if tier == "quick" else 1)])]
    out += [{"kind": "deep", "cols": c, "shift": 0, "cap": cap} for c, cap in common.deep_datasets(tier)]
    out += [{"kind": "sampler", "cols": c, "depth": d, "cap": cap, "gap": g} for c, d, cap in walk.menu(tier) for g in range(len(SHORT))]
    out += [{"kind": "tiny", "cols": c, "shift": s, "cap": 30 if tier == "quick" else 300} for c, s in common.datasets(tier, [(2, 1, 1), (3, 1, 2), (4, 1, 9), (3, 2, 50)])]
    out += [{"kind": "big", "case": c, "gap": g} for c in big.cases(tier) for g in (1, 2)]
    if tier != "quick":
        out += [{"kind": "hist", "cols": c, "shift": s, "gaps": "short", "depth": 3} for c, s in common.datasets(tier, [(4, 1, 1), (3, 2, 3)])]
    return out


def bounds(tier):
    return {"history": "moves up to depth 2 (3 on part), every gap filled with every cache-filling query group or target update in the menu",
            "gaps": [list(g) for g in GAPS], "root masks": "every non-empty row subset", "targets": "all pairs of %d targets, most of them nearly equal or tiny" % len(TINY), "datasets": common.describe(tier), "large": big.describe(tier)}


def run(item):
    if item["kind"] == "big":
        return run_big(item)
    X = ref.matrix(item["cols"], item.get("shift", 1))
    return {"sampler": run_sampler, "hist": run_hist, "masks": run_masks, "deep": run_deep, "tiny": run_tiny}[item["kind"]](item, X)


def act(tree, gap, X, y, k):
    for a in gap:
        if a == "UPDATE":
            k += 1
            y = ref.targets(len(X), k % 2) * (1 + k) - k
            mine = y.copy()
            tree.update_y(mine)
        elif a == "INPLACE":
            # the caller's own array, changed in place and handed over again
            k += 1
            y = ref.targets(len(X), k % 2) * (1 + k) - k
            mine[:] = y
            tree.update_y(mine)
        else:
            real.tree_stats_ok(tree, X, y, [a], where="query in a gap")
    return y, k


def run_hist(item, X):
    cov = Coverage()
    gaps = GAPS if item["gaps"] == "full" else SHORT
    y0 = ref.targets(len(X))

    def rec(t, hist):
        """hist: list of (gap, move)."""
        for gap in gaps:
            for order in ORDERS:
                tree = real.new_tree(X, y0)
                y, k = y0, 0
                done = None
                for g, m in hist:
                    y, k = act(tree, g, X, y, k)
                    real.do(tree, m)
                y, k = act(tree, gap, X, y, k)
                real.tree_stats_ok(tree, X, y, order, t, history=hist + [(gap, None)], data=X.tolist())
                # asking again gives the same answers
                real.tree_stats_ok(tree, X, y, order, t, history=hist + [(gap, "again")], data=X.tolist())
                cov.executions += 1
                cov.transitions += len(hist) + 1
            cov.states += 1
            if len(hist) < item["depth"]:
                for m in ref.moves(t, X):
                    rec(ref.apply(t, m), hist + [(gap, m[:4])])
    rec(None, [])
    cov.sample({"X": X.tolist(), "depth": item["depth"]})
    return cov


def run_sampler(item, X):
    """The moves of the default tree update, with targets replaced and caches filled in between."""
    cov = Coverage()
    y0 = ref.targets(len(X))
    cur = {}

    def between(model, tree, j):
        cur["y"], cur["k"] = act(tree, SHORT[item["gap"]], X, cur["y"] if j else y0, cur["k"] if j else 0)

    def visit(model, tree, t, d):
        y = cur["y"] if d["trees"][1:] else y0
        real.tree_stats_ok(tree, X, y, ORDERS[len(d["trees"]) % 2], t, **d)
    walk.walks(common.own_sampler, X, y0, item["depth"], item["cap"], cov, visit, between)
    return cov


TINY = [lambda y: y * 1e-13, lambda y: -y * 1e-13, lambda y: y * 1e-200, lambda y: 0 * y, lambda y: 1.0 + y * 1e-13, lambda y: 1.0 - y * 1e-13,
        lambda y: 1e9 + y, lambda y: 1e9 - y, lambda y: y[::-1] * 1.0, lambda y: y + 1e-12]


def run_tiny(item, X):
    """One target after another that differ by next to nothing: every node holds the last one, to the last digits."""
    cov = Coverage()
    y0 = ref.targets(len(X))
    order, hist = ref.all_trees(X, cap=item["cap"])
    for t in order:
        for a, b in itertools.product(range(len(TINY)), repeat=2):
            tree = real.build(X, y0, hist[t])
            for k in (a, b):
                y = TINY[k](y0)
                tree.update_y(y.copy())
                idx = real.index(tree)
                for path, _, rows, _ in ref.walk(t, X):
                    v = [float(y[r]) for r in rows]
                    got = float(idx[path].data.y.summed_y())
                    need(abs(got - math.fsum(v)) <= 1e-15 * (len(v) + 1) * math.fsum(map(abs, v)), "summed target is not the sum of the node's targets", got=got, expected=math.fsum(v),
                         history=hist[t], data=X.tolist(), path=path, target=y.tolist())
            cov.transitions += 2
            cov.executions += 1
        cov.states += 1
    return cov


def run_masks(item, X):
    cov = Coverage()
    n = len(X)
    y = ref.targets(n)
    for bits in itertools.product([False, True], repeat=n):
        if all(bits):
            continue
        mask = np.array(bits)
        rows = tuple(i for i in range(n) if not bits[i])
        for order in ORDERS:
            for norm in (False, True):
                d = Data(X.copy(), y.copy(), mask=mask.copy(), normalize=norm)
                node = LeafNode(Split(d))
                yy = y if not norm else -0.5 + (y - y.min()) / (y.max() - y.min()) if y.max() > y.min() else y * 0.0
                real.stats_ok(node, X, yy, rows, order, data=X.tolist(), mask=bits)
                cov.executions += 1
        # split the masked node, compare the children
        for v, val, _ in ref.grow_moves(X, rows):
            for order in ORDERS:
                node = LeafNode(Split(Data(X.copy(), y.copy(), mask=mask.copy())))
                dn = split_node(node, real.conditions(v, val))
                tree = Tree([node])
                mutate(tree, GrowMutation(node, dn))
                for child, op in ((dn.left_child, lambda a: a <= val), (dn.right_child, lambda a: a > val)):
                    real.stats_ok(child, X, y, tuple(i for i in rows if op(X[i, v])), order, data=X.tolist(), mask=bits, split=(v, val))
                real.stats_ok(node, X, y, rows, order, data=X.tolist(), mask=bits)
                cov.transitions += 1
                cov.executions += 1
        cov.states += 1
    for yy in (y.astype(int), (y * 8).astype(int)):
        d = make_bartpy_data(X, yy, normalize=False)
        real.stats_ok(LeafNode(Split(d)), X, yy.astype(float), tuple(range(n)), data=X.tolist())
    return cov


def run_big(item):
    cov = Coverage()
    name, style, steps = item["case"]
    X, y = big.data(name)
    tree = real.new_tree(X, y)
    k, done = 0, []
    for j, (m, t) in enumerate(big.history(X, style, steps)):
        y, k = act(tree, SHORT[item["gap"]] if j % 3 == item["gap"] else (), X, y, k)
        real.do(tree, m)
        done.append(m)
        if j % 3 == 1 or j + 1 == steps:
            real.tree_stats_ok(tree, X, y, ORDERS[j % 2], t, history=done)
            cov.executions += 1
        cov.transitions += 1
        cov.states += 1
    real.tree_stats_ok(tree, X, y, None, t, history=done)
    return cov


def run_deep(item, X):
    cov = Coverage()
    y0 = ref.targets(len(X))
    order, hist = ref.all_trees(X, cap=item["cap"])
    for i, t in enumerate(order):
        for gap in SHORT[1:3]:
            tree = real.new_tree(X, y0)
            y, k = y0, 0
            for m in hist[t]:
                y, k = act(tree, gap, X, y, k)
                real.do(tree, m)
            real.tree_stats_ok(tree, X, y, ORDERS[i % 2], t, data=X.tolist(), history=hist[t])
            cov.executions += 1
            cov.transitions += len(hist[t])
        cov.states += 1
    return cov

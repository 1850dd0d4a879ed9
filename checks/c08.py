"""C08: acceptance rule of both shipped tree samplers."""
import itertools
import math

import numpy as np

from bartpy.data import Data
from bartpy.model import Model
from bartpy.samplers.oblivioustrees import treemutation as oblivious
from bartpy.samplers.unconstrainedtree import treemutation as unconstrained
from bartpy.sigma import Sigma

from mc import real, ref
from mc.core import Coverage, need
from checks import big, common
from checks.c03 import snapshot
from checks.c05 import Fixed

RATIOS = [-math.inf, -600.0, -7.5, -1.0, -0.1, -1e-5, 0.0, 1e-5, 0.4, 3.0, 600.0, math.inf, math.nan]
DRAWS = [0.0, 1e-250, 1e-4, 0.3, 0.5, 0.9, 0.99, 1 - 1e-9]


def draws_for(r):
    out = list(DRAWS)
    if -600 <= r < 0:
        out += [math.exp(r) * (1 - 1e-6), min(math.exp(r) * (1 + 1e-6), 1 - 1e-12)]
    return out


def accept(u, r):
    if math.isnan(r):
        return False
    lu = -math.inf if u == 0 else math.log(u)
    return lu < r


class Proposer:
    def __init__(self, what):
        self.what, self.n = what, 0

    def propose(self, tree):
        self.n += 1
        return self.what


class Ratio:
    def __init__(self, table):
        self.table = table

    def log_probability_ratio(self, model, tree, mutation):
        return self.table[id(mutation)]

    def log_method_ratio(self, tree, mutations):
        return 0.0


def items(tier):
    sets = [([[0, 1, 2]], 1), ([[0, 1], [1, 0]], 0), ([[1, 0, 1], [0, 0, 1]], 1), ([[2, 0, 1, 3]], 2)]
    if tier != "quick":
        sets += [(c, s) for c, s in common.datasets(tier, [(3, 2, 5), (4, 1, 3)])]
    return [{"cols": c, "shift": s, "mod": m} for c, s in sets for m in ("unconstrained", "oblivious")] + [{"case": c} for c in big.cases(tier)]


def bounds(tier):
    return {"ratios": [str(r) for r in RATIOS], "draws": DRAWS + ["exp(r)*(1 -/+ 1e-6)"], "moves": "every move of every tree of the data sets; "
            "for the oblivious sampler every combination of ratios over up to 3 simultaneous moves", "large": "all leaves, or all prunable nodes, at once on the last trees of %s" % big.describe(tier)}


def run_big(item):
    """Many moves at once."""
    cov = Coverage()
    name, style, steps = item["case"]
    X, y = big.data(name)
    h = big.history(X, style, steps)
    extra = real.new_tree(X, y)
    for upto in sorted({len(h), len(h) - 1, len(h) // 2}):
        t = h[upto - 1][1]
        hist = tuple(m for m, _ in h[:upto])
        for kind in ("grow", "prune"):
            simultaneous(X, y, hist, t, kind, extra, cov, True)
        for mv in ref.moves(t, X)[::17]:
            for r, u in ((0.5, 0.9), (-0.5, 0.6), (-0.5, 0.61), (-math.inf, 0.0), (-3.0, 0.3)):
                single(X, y, hist, t, mv[:4], r, u, extra, cov)
        cov.states += 1
    return cov


def run(item):
    if "case" in item:
        return run_big(item)
    cov = Coverage()
    X = ref.matrix(item["cols"], item["shift"])
    y = ref.targets(len(X))
    order, hist = ref.all_trees(X, cap=40)
    extra = real.new_tree(X, y)
    for t in order:
        cov.states += 1
        if item["mod"] == "unconstrained":
            for mv in ref.moves(t, X):
                for r in RATIOS:
                    for u in draws_for(r):
                        single(X, y, hist[t], t, mv, r, u, extra, cov)
            nothing(unconstrained, X, y, hist[t], t, extra, cov)
        else:
            for kind in ("grow", "prune"):
                simultaneous(X, y, hist[t], t, kind, extra, cov)
            nothing(oblivious, X, y, hist[t], t, extra, cov)
    cov.sample({"data": X.tolist(), "trees": len(order), "sampler": item["mod"]})
    return cov


def model_of(X, y, tree, extra):
    return Model(Data(X.copy(), y.copy()), Sigma(1.0, 1.0, 1.0), trees=[tree, extra])


def start(X, y, h):
    tree = real.build(X, y, h)
    for j, leaf in enumerate(tree.leaf_nodes):
        leaf.set_value(j + 0.25)
    return tree


def nothing(mod, X, y, h, t, extra, cov):
    tree = start(X, y, h)
    before = snapshot(tree)
    s = mod.UnconstrainedTreeMutationSampler(Proposer(None), Ratio({}), scalar_sampler=Fixed(0.5))
    need(s.step(model_of(X, y, tree, extra), tree) is None and snapshot(tree) == before, "an update without a proposal did something", tree=t)
    cov.executions += 1


def single(X, y, h, t, mv, r, u, extra, cov):
    tree = start(X, y, h)
    node = real.index(tree)[mv[1]]
    m = real.grow_mutation(node, mv[2], mv[3]) if mv[0] == "grow" else real.prune_mutation(node)
    before = snapshot(tree)
    s = unconstrained.UnconstrainedTreeMutationSampler(Proposer(m), Ratio({id(m): r}), scalar_sampler=Fixed(u))
    got = s.step(model_of(X, y, tree, extra), tree)
    judge(X, t, [mv], [m], before, tree, got, got is m, accept(u, r), dict(tree=t, move=mv, ratio=r, draw=u, data=X.tolist()), cov)


def judge(X, t, mvs, ms, before, tree, got, is_reported, want, d, cov):
    cov.executions += 1
    cov.transitions += 1
    cov.outcomes.add((want, len(mvs)))
    if want:
        t2 = t
        for mv in mvs:
            t2 = ref.apply(t2, mv)
        need(got is not None, "a move was refused although log(u) is below its log ratio", **d)
        need(is_reported, "the applied move is not the one reported", **d)
        need(real.well_formed(tree, X) == t2, "an accepted move was not applied exactly once", got=real.canon(tree), expected=t2, **d)
    else:
        need(got is None, "a move was accepted although log(u) is not below its log ratio", **d)
        need(snapshot(tree) == before, "a refused update changed the tree", **d)


def simultaneous(X, y, h, t, kind, extra, cov, every=False):
    if kind == "grow":
        mvs = []
        for path, _, rows, _ in ref.leaves(t, X):
            g = ref.grow_moves(X, rows)
            if g:
                mvs.append(("grow", path) + g[len(path) % len(g)][:2])
    else:
        mvs = [("prune", p) for p, _, _, _ in ref.prunable(t, X)]
    if not mvs:
        return
    if not every:
        mvs = mvs[:3]
    menu = RATIOS if len(mvs) == 1 else [-math.inf, -3.0, -0.5, 0.25, math.inf, math.nan]
    n = len(mvs)
    if every:
        # equal shares, and each position on its own making the difference
        many = [(-0.5 / n,) * n, (0.1,) * n] + [tuple(-9.0 if j == i else 8.0 / n for j in range(n)) for i in range(n)] \
            + [tuple(-math.inf if j == i else 1.0 for j in range(n)) for i in range(0, n, 5)]
    for rs in many if every else itertools.product(menu, repeat=n):
        total = sum(rs) if not any(math.isnan(r) for r in rs) else math.nan
        for u in draws_for(total) if not math.isnan(total) else DRAWS:
            tree = start(X, y, h)
            idx = real.index(tree)
            ms = [real.grow_mutation(idx[m[1]], m[2], m[3]) if m[0] == "grow" else real.prune_mutation(idx[m[1]]) for m in mvs]
            before = snapshot(tree)
            s = oblivious.UnconstrainedTreeMutationSampler(Proposer(list(ms)), Ratio({id(m): r for m, r in zip(ms, rs)}), scalar_sampler=Fixed(u))
            got = s.step(model_of(X, y, tree, extra), tree)
            same = got is not None and sorted(map(id, got)) == sorted(map(id, ms))
            judge(X, t, mvs, ms, before, tree, got, same, accept(u, total),
                   dict(tree=t, moves=mvs, ratios=rs, draw=u, data=X.tolist()), cov)

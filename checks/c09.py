"""C09: leaf draws are the conjugate normal posterior."""
import itertools
import math

import numpy as np

from bartpy.data import Data
from bartpy.model import Model
from bartpy.node import LeafNode
from bartpy.samplers.leafnode import LeafNodeSampler
from bartpy.sigma import Sigma

from mc import real, ref
from mc.core import Coverage, need
from mc.rng import Controller
from checks import big, chain, common
from checks.c05 import Fixed

SIGMAS = [0.05, 0.5, 1.0, 3.0, 40.0, 1e-5, 1e4]
KS = [2.0, 1.0, 3, 0.5, 40.0]
NTREES = [1, 2, 5, 200]
Z = [0.0, 1.0, -1.0, 7 / 3, -7.0, 40.0]


def items(tier):
    q = tier == "quick"
    out = [{"cols": c, "shift": s, "cap": 30 if q else 200, "full": i % 5 == 0 or not q}
           for i, (c, s) in enumerate(common.datasets(tier, [(1, 1, 1), (2, 1, 1), (3, 1, 1), (4, 1, 3 if q else 1), (2, 2, 1), (3, 2, 8 if q else 1)]))]
    out += [{"cols": c, "shift": 0, "cap": 25 if q else 300, "full": not q} for c, _ in common.deep_datasets(tier)]
    out += [{"case": c, "full": False} for c in big.cases("quick")]
    out.append({"kind": "default"})
    out += [{"kind": "sizes", "ns": list(range(1 + k, 321, 16)) + [1001 + 500 * k]} for k in range(16)]
    return out + chain.cases(tier)


def bounds(tier):
    return {"leaves": "every leaf of every tree (capped per data set)", "sigma": SIGMAS, "k": KS, "n_trees": NTREES, "z": Z, "rows in a leaf": "as in the data sets, and 1 to 320 and up to 8501",
            "chains": chain.describe(), "large": big.describe("quick"), "histories": "target replaced once or twice after building, other leaves and trees drawn before"}


def expected(X, target, rows, sigma, k, nt, z):
    n, S = len(rows), sum(float(target[i]) for i in rows)
    sm2 = (0.5 / (k * math.sqrt(nt))) ** 2
    v = 1.0 / (1.0 / sm2 + n / sigma ** 2)
    return v * S / sigma ** 2 + z * math.sqrt(v)


def run(item):
    if "chain" in item:
        return chain.run(item, Coverage(), "leaf")
    if item.get("kind") == "default":
        return run_default()
    if item.get("kind") == "sizes":
        return run_sizes(item)
    cov = Coverage()
    if "case" in item:
        X, y = big.data(item["case"][0])
        h = big.history(X, *item["case"][1:])
        order, hist = [h[-1][1], None], {h[-1][1]: tuple(m for m, _ in h), None: ()}
    else:
        X = ref.matrix(item["cols"], item["shift"])
        y = ref.targets(len(X))
        order, hist = ref.all_trees(X, cap=item["cap"])
    n = len(X)
    params = list(itertools.product(SIGMAS, KS, NTREES, Z))
    if not item["full"]:
        params = params[::7]
    extra = [real.new_tree(X, y) for _ in range(max(NTREES) - 1)]
    for t in order:
        cov.states += 1
        for upd in (0, 1, 2):
            tree = real.build(X, y, hist[t])
            target = y
            for j in range(upd):
                target = ref.targets(n, j + 1) * (j + 2) - j
                tree.update_y(target.copy())
            idx = real.index(tree)
            for leaf in tree.leaf_nodes:
                leaf.set_value(17.0)
            rows_at = [(p, r) for p, _, r, _ in ref.leaves(t, X)]
            ps = params if upd == 1 else params[::11]
            for sigma, k, nt, z in ps:
                sg = Sigma(0.5, 0.5, 3.0)
                sg.set_value(sigma)
                model = Model(Data(X.copy(), y.copy()), sg, trees=[tree] + extra[:nt - 1], k=k, alpha=0.9, beta=1.5)
                for p, rows in rows_at:
                    node = idx[p]
                    others = [(q2, idx[q2].current_value) for q2, _ in rows_at if q2 != p]
                    got = LeafNodeSampler(Fixed(z)).step(model, node)
                    e = expected(X, target, rows, sigma, k, nt, z)
                    d = dict(tree=t, leaf=p, rows=rows, sigma=sigma, k=k, n_trees=nt, z=z, target=list(target), data=X.tolist())
                    tol = 1e-9 * (1 + abs(e) + abs(z))
                    need(abs(float(node.current_value) - e) <= tol, "a leaf was not set to mean + sd*z of its posterior",
                         got=float(node.current_value), expected=e, **d)
                    need(abs(float(got) - e) <= tol, "the reported leaf draw is not the posterior draw", got=float(got), expected=e, **d)
                    need(all(idx[q2].current_value == v for q2, v in others), "a leaf draw changed another leaf", **d)
                    cov.executions += 1
                    cov.transitions += 1
                need(real.canon(tree) == t, "a leaf draw changed the tree", tree=t)
                need(model.sigma.current_value() == sigma, "a leaf draw changed sigma")
    cov.sample({"data": X.tolist(), "trees": len(order)})
    return cov


def run_sizes(item):
    """Every number of rows in a leaf."""
    cov = Coverage()
    for n in item["ns"]:
        X = np.arange(n, dtype=float).reshape(-1, 1)
        for y in ((X[:, 0] * 37) % 23 - 9.0, np.full(n, 1e-3), np.full(n, -1e5)):
            tree = real.new_tree(X, y)
            for sigma, k, nt, z in list(itertools.product(SIGMAS, KS, (1, 50), Z))[::5]:
                sg = Sigma(0.5, 0.5, 3.0)
                sg.set_value(sigma)
                model = Model(Data(X, y), sg, trees=[tree] * nt, k=k)
                got = LeafNodeSampler(Fixed(z)).step(model, tree.leaf_nodes[0])
                e = expected(X, y, range(n), sigma, k, nt, z)
                d = dict(rows=n, sigma=sigma, k=k, n_trees=nt, z=z, target_of_row_0=float(y[0]))
                for g in (float(got), float(tree.leaf_nodes[0].current_value)):
                    need(abs(g - e) <= 1e-9 * (1 + abs(e)), "a leaf was not set to mean + sd*z of its posterior", got=g, expected=e, **d)
                cov.executions += 1
                cov.transitions += 1
            cov.states += 1
    return cov


def run_default():
    """The sampler as shipped: its draws are standard normal ones."""
    cov = Coverage()
    X = ref.matrix([[0, 1, 2, 0]], 1)
    y = ref.targets(4)
    sg = Sigma(1.0, 1.0, 1.0)
    for z in (0.0, 1.0, -2.0, 0.5, 9.0):
        tree = real.new_tree(X, y)
        model = Model(Data(X.copy(), y.copy()), sg, trees=[tree])
        leaf = tree.leaf_nodes[0]
        with Controller(z=z, u=0.123, log=True) as c:
            s = LeafNodeSampler()
            for _ in range(200000):          # use up whatever is cached from before
                s.step(model, leaf)
                if c.calls:
                    break
            need(bool(c.calls), "leaf draws never asked for randomness")
            for _ in range(3):
                s.step(model, leaf)
                e = expected(X, y, range(4), sg.current_value(), 2.0, 1, z)
                need(abs(leaf.current_value - e) < 1e-9, "the default leaf sampler does not use a standard normal draw", z=z,
                     got=leaf.current_value, expected=e)
                cov.executions += 1
                cov.transitions += 1
            need(all(call[0] == "normal" and call[1] == 0.0 and call[2] == 1.0 for call in c.calls) or not cov.executions,
                 "the default leaf sampler asks for another distribution", calls=[str(x)[:80] for x in c.calls[:3]])
        cov.states += 1
    return cov

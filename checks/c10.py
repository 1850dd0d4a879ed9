"""C10: sigma draws are the inverse gamma posterior of the current residuals."""
import itertools
import math

import numpy as np

from bartpy.data import Data
from bartpy.model import Model
from bartpy.samplers.sigma import SigmaSampler
from bartpy.sigma import Sigma

from mc import real, ref
from mc.core import Coverage, close, need
from mc.rng import Controller
from checks import big, chain, common
from checks.c05 import expected

PRIORS = [(0.001, 0.001), (3.0, 0.5), (1.0, 10.0)]
G = [0.25, 1.0, 4.0]
SCALES = [1.0, 0.2, 1000.0, 0.0]
OPS = ["none", "values", "move", "predict", "sweep", "prior", "sigma", "residuals", "scale"]


def items(tier):
    q = tier == "quick"
    sets = common.datasets(tier, [(1, 1, 1), (2, 1, 1), (3, 1, 1), (2, 2, 3), (4, 1, 15 if q else 4), (3, 2, 30 if q else 9)])
    sets += [([[i % 5 for i in range(24)], [i % 3 for i in range(24)]], 0)]
    large = [{"name": nm, "depth": 2, "nt": nt, "norm": norm} for nm in big.MORE for nt in (1, 9) for norm in (False, True)]
    large += [{"kind": "sizes", "ns": list(range(1 + k, 321, 16)) + [1001 + 500 * k]} for k in range(16)]
    return large + chain.cases(tier) + [{"cols": c, "shift": s, "depth": 2 if q else 3, "nt": nt, "norm": norm} for c, s in sets for nt in (1, 2) for norm in (False, True)]


def bounds(tier):
    return {"histories": "all sequences of %d operations of %s between draws" % (2 if tier == "quick" else 3, OPS), "priors": PRIORS,
            "chains": chain.describe(), "gamma draws (times shape)": G, "scales": SCALES, "sizes": "1 to 320 rows and up to 8501, six priors, residuals from zero to 1e4", "trees": "1-2, on larger data (%s) also 9" % big.MORE}


def run(item):
    cov = Coverage()
    if "chain" in item:
        return chain.run(item, Coverage(), "sigma")
    if item.get("kind") == "sizes":
        return run_sizes(item, cov)
    if "name" in item:
        X, y0 = big.data(item["name"])
    else:
        X = ref.matrix(item["cols"], item["shift"])
        y0 = ref.targets(len(X)) * 1.5
    n = len(X)
    y = y0
    if item["norm"]:
        y = (-0.5 + (y0 - y0.min()) / (y0.max() - y0.min())) if y0.max() > y0.min() else y0 * 0
    for i, ops in enumerate(itertools.product(OPS, repeat=item["depth"])):
        (a, b), g, scale = PRIORS[i % 3], G[(i // 3) % 3], SCALES[(i // 9 + i) % 4]
        sg = Sigma(a, b, scale)
        model = Model(Data(X.copy(), y0.copy(), normalize=item["norm"]), sg, n_trees=item["nt"], initializer=None)
        pr = [a, b, scale]
        for j, op in enumerate(ops):
            apply(model, sg, op, j, X, pr)
            check(model, sg, pr, X, y, n, g, pr[2], dict(history=ops[:j + 1], data=X.tolist(), trees=item["nt"]), cov)
        cov.states += 1
    cov.sample({"data": X.tolist(), "trees": item["nt"]})
    return cov


def run_sizes(item, cov):
    """Every number of rows; residuals of ordinary size, tiny, and zero; flat and sharp priors."""
    for n in item["ns"]:
        X = np.arange(n, dtype=float).reshape(-1, 1)
        for y, v in (((X[:, 0] * 37) % 23 - 9.0, 0.5), ((X[:, 0] % 3) * 1e-6, 0.0), (np.full(n, 0.25), 0.25), (np.full(n, 1e4), 0.0)):
            for k, (a, b) in enumerate(PRIORS + [(1e-6, 1e-9), (50.0, 1e4), (0.0, 1e-12)]):
                sg = Sigma(a, b, 2.0)
                model = Model(Data(X.copy(), y.copy()), sg, n_trees=1 + k % 2, initializer=None)
                model.trees[0].leaf_nodes[0].set_value(v)
                check(model, sg, [a, b], X, y, n, G[k % 3], 2.0, dict(rows=n, prior=(a, b)), cov)
                cov.states += 1
    return cov


def apply(model, sg, op, j, X, pr):
    tree = model.trees[j % len(model.trees)]
    if op == "values":
        for i, leaf in enumerate(tree.leaf_nodes):
            leaf.set_value(0.5 * (i + 1) - j)
    elif op == "move":
        mv = ref.moves(real.canon(tree), X)
        if mv:
            real.do(tree, mv[j % len(mv)][:4])
        for i, leaf in enumerate(tree.leaf_nodes):
            leaf.set_value(0.25 * (i + 1) + j)
    elif op == "predict":
        model.predict()
    elif op == "residuals":
        model.residuals()
    elif op == "sweep":
        for k, t in enumerate(model.refreshed_trees()):
            t.leaf_nodes[0].set_value(0.75 - k + j)
    elif op == "prior":
        sg.alpha, sg.beta = pr[0] + 2.0, pr[1] + 0.25
        pr[:2] = [sg.alpha, sg.beta]
    elif op == "scale":
        sg.scaling_factor = pr[2] = pr[2] * 3 + 1
    elif op == "sigma":
        sg.set_value(9.0)


def check(model, sg, pr, X, y, n, g, scale, d, cov):
    res = y - np.sum([expected(t, X) for t in model.trees], axis=0)
    shape, rate = pr[0] + n / 2.0, pr[1] + 0.5 * float(np.sum(res ** 2))
    before = [(real.canon(t), [l.current_value for l in t.leaf_nodes]) for t in model.trees]
    with Controller(g=g, log=True, u=0.375, z=0.375) as c:
        got = SigmaSampler().step(model, model.sigma)
    want = (g * shape / rate) ** -0.5
    cov.executions += 1
    cov.transitions += 1
    need(len(c.calls) == 1 and c.calls[0][0] == "gamma", "a sigma draw is not one gamma draw", calls=[str(x) for x in c.calls], **d)
    need(abs(c.calls[0][1] - shape) <= 1e-9 * (1 + shape), "wrong shape of the precision's posterior", got=c.calls[0][1], expected=shape, **d)
    need(abs(sg.current_value() - want) <= 1e-8 * want, "sigma is not the inverse square root of the posterior precision draw",
         got=float(sg.current_value()), expected=want, shape=shape, rate=rate, **d)
    need(abs(float(got) - want) <= 1e-8 * want, "the reported sigma is not the draw", got=float(got), expected=want, **d)
    need(abs(sg.current_unnormalized_value() - want * scale) <= 1e-8 * want * scale, "sigma on the original scale is wrong",
         got=float(sg.current_unnormalized_value()), expected=want * scale, **d)
    need(model.sigma is sg, "the model's sigma was replaced", **d)
    need(before == [(real.canon(t), [l.current_value for l in t.leaf_nodes]) for t in model.trees], "a sigma draw changed a tree", **d)
    need(sg.alpha == pr[0] and sg.beta == pr[1], "a sigma draw changed the prior", **d)

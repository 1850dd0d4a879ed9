"""Whole chains run by one set of sampler objects over several models, every decision and draw of which is checked: what depends on
what the same objects did before (values remembered from an earlier step, tree, model or data set) is not visible in single steps."""
import math

import numpy as np

from bartpy.data import Data
from bartpy.model import Model
from bartpy.samplers.leafnode import LeafNodeSampler
from bartpy.samplers.oblivioustrees import treemutation as oblivious
from bartpy.samplers.sigma import SigmaSampler
from bartpy.samplers.unconstrainedtree import treemutation as unconstrained
from bartpy.sigma import Sigma

from mc import real, ref
from mc.core import need
from mc.rng import Controller
from checks import big, c05

# alpha, beta, k, n_trees, prior of the noise level, scale of the targets: models that follow each other
MODELS = [(0.95, 2.0, 2.0, 2, (3.0, 0.5), 1.0), (0.6, 0.5, 1.0, 1, (1.0, 10.0), 0.2), (0.8, 1.0, 3.0, 3, (0.001, 0.001), 4.0)]
Z = [0.0, 1.0, -1.5, 0.25, -0.5, 2.5]


class Spy:
    def __init__(self):
        self.inner, self.last, self.seen = None, None, None

    def propose(self, tree):
        self.last = self.inner.propose(tree)
        self.seen()
        return self.last


class Asked:
    """Answers with a value worked out when it is asked for."""

    def __init__(self, f):
        self.f = f

    def sample(self):
        return self.f()


class Pick:
    """A fixed sequence of choices that grows more often than it prunes."""

    def __init__(self, r):
        self.r = r

    def __call__(self, n, w=None, what=""):
        alive = [i for i in range(n) if w is None or w[i] > 0]
        if what == "batch" and n == 2 and len(alive) == 2:
            return 0 if self.r(10) < 6 else 1
        return alive[self.r(len(alive))]


def cases(tier):
    out = [{"chain": c, "seed": s, "sweeps": 14, "p": p} for c in ([[0, 1, 2, 3]], [[0, 0, 1], [1, 0, 1]], [[4, 2, 0, 1, 3], [0, 1, 1, 0, 2]], [[0, 1]]) for s, p in ((1, 0.5), (2, 0.7))]
    return out + [{"chain": n, "seed": s, "sweeps": 6, "p": 0.5} for n in ("tall", "binary") for s in ((1,) if tier == "quick" else (1, 2, 3, 4))]


def describe():
    return "chains of 6 to 14 sweeps on 6 data sets by one set of sampler objects over %d models with other priors, data and numbers of trees" % len(MODELS)


def run(item, cov, judged):
    """judged: 'tree', 'level', 'leaf' or 'sigma'"""
    level = judged == "level"
    mod = oblivious if level else unconstrained
    r = big.lcg(item["seed"])
    pg, pp = item["p"], 1 - item["p"]
    st = {}
    spy = Spy()
    sampler = mod.UnconstrainedTreeMutationSampler(spy, mod.get_tree_sampler(pg, pp).likihood_ratio, Asked(lambda: draw(st)))
    z = [0]
    leaf_sampler, sigma_sampler = LeafNodeSampler(Asked(lambda: Z[z[0] % len(Z)])), SigmaSampler()
    if isinstance(item["chain"], str):
        X, y0 = big.data(item["chain"])
        X, y0 = X[:60], y0[:60] / 4
    else:
        X = ref.matrix(item["chain"], item["seed"])
        y0 = ref.targets(len(X), 0)
    for mi, (alpha, beta, k, nt, prior, scale) in enumerate(MODELS):
        A = X if mi != 1 else X[::-1].copy()
        y = (y0 if mi != 1 else y0[::-1]) * scale
        sg = Sigma(prior[0], prior[1], 1.0)
        model = Model(Data(A.copy(), y.copy()), sg, n_trees=nt, alpha=alpha, beta=beta, k=k, initializer=None)
        sm = 0.5 / (k * math.sqrt(nt))
        for sweep in range(item["sweeps"] if not level else min(item["sweeps"], 8)):
            for i, tree in enumerate(model.refreshed_trees()):
                d = dict(data=A.tolist() if len(A) < 9 else item["chain"], model=mi, sweep=sweep, tree_number=i, parameters=MODELS[mi])
                others = np.sum([value(t, A, level) for j, t in enumerate(model.trees) if j != i] + [np.zeros(len(A))], axis=0)
                target = y - others
                update(sampler, spy, st, mod, tree, model, A, target, sg.current_value(), sm, alpha, beta, pg, pp, r, level, cov, judged in ("tree", "level"), d)
                for leaf in tree.leaf_nodes:
                    z[0] += 1
                    got = leaf_sampler.step(model, leaf)
                    if judged == "leaf":
                        rows = real.rows_of(leaf)
                        n, S, s2 = len(rows), float(sum(target[x] for x in rows)), sg.current_value() ** 2
                        v = 1.0 / (1.0 / sm ** 2 + n / s2)
                        want = v * S / s2 + Z[z[0] % len(Z)] * math.sqrt(v)
                        need(abs(float(got) - want) <= 1e-7 * (1 + abs(want)) and abs(float(leaf.current_value) - want) <= 1e-7 * (1 + abs(want)),
                             "a leaf was not set to mean + sd*z of its posterior", got=float(leaf.current_value), expected=want, rows=rows, sigma=sg.current_value(), **d)
                        cov.executions += 1
                        cov.transitions += 1
            res = y - np.sum([value(t, A, level) for t in model.trees], axis=0)
            g = (0.25, 1.0, 4.0, 0.5)[(sweep + mi) % 4]
            with Controller(g=g, u=0.375, z=0.375, log=True) as c:
                got = sigma_sampler.step(model, model.sigma)
            if judged == "sigma":
                shape, rate = prior[0] + len(A) / 2.0, prior[1] + 0.5 * float(np.sum(res ** 2))
                want = (g * shape / rate) ** -0.5
                need(len(c.calls) == 1 and c.calls[0][0] == "gamma" and abs(c.calls[0][1] - shape) <= 1e-9 * (1 + shape), "a sigma draw is not one gamma draw of the posterior's shape",
                     calls=[str(x) for x in c.calls], expected=shape, data=A.tolist() if len(A) < 9 else item["chain"], model=mi, sweep=sweep)
                need(abs(float(got) - want) <= 1e-7 * want and abs(sg.current_value() - want) <= 1e-7 * want, "sigma is not the inverse square root of the posterior precision draw",
                     got=float(sg.current_value()), expected=want, data=A.tolist() if len(A) < 9 else item["chain"], model=mi, sweep=sweep)
                cov.executions += 1
                cov.transitions += 1
            cov.states += 1
    cov.sample({"chain": str(item["chain"]), "sweeps": item["sweeps"], "models": len(MODELS)})
    return cov


def value(tree, X, level):
    if level:
        return np.array(tree.predict(X.copy()), dtype=float)
    return c05.expected(tree, X)


def draw(st):
    if st["balance"] is None:
        return 0.5
    a = min(0.0, st["balance"]())
    st["log_ratio"] = a
    tol = 1e-7 * max(1.0, abs(a))
    if a < -600:
        st["want"] = False
        return math.exp(-500)
    if st["accept"] or a > -2 * tol:
        st["want"] = True
        return min(math.exp(a - tol), 1 - 1e-13)
    st["want"] = False
    return math.exp(a + tol)


def update(sampler, spy, st, mod, tree, model, X, target, sigma, sm, alpha, beta, pg, pp, r, level, cov, judged, d):
    """One update of a tree with a uniform draw just below or just above the balancing one."""
    from checks import c29
    st.update(want=None, log_ratio=None, balance=None, accept=r(4) > 0)
    before = c29.canon(tree, X) if level else real.canon(tree)

    def balance():
        m = spy.last
        if level:
            after = c29.after(before, m, tree, X)
            lp = [ref.log_posterior(s[1], X, target, sigma, sm, alpha, beta) for s in (before, after)]
            return lp[1] - lp[0] + math.log(c29.expected_proposal(after, before, X, pg, pp)) - math.log(c29.expected_proposal(before, after, X, pg, pp))
        mv = real.move_of(tree, m)
        after = ref.apply(before, mv)
        sub = before
        for p in mv[1]:
            sub = sub[2 + p]
        rev = ("prune", mv[1]) if mv[0] == "grow" else ("grow", mv[1]) + sub[:2]
        lp = [ref.log_posterior(t, X, target, sigma, sm, alpha, beta) for t in (before, after)]
        return lp[1] - lp[0] + math.log(ref.proposal_distribution(after, X, pg, pp)[rev]) - math.log(ref.proposal_distribution(before, X, pg, pp)[mv])

    spy.inner, spy.last = mod.get_tree_sampler(pg, pp).proposer, None
    spy.seen = lambda: st.update(balance=balance if spy.last is not None else None)
    with Controller(pick=Pick(r), u_grid=60, retry=True):
        got = sampler.step(model, tree)
    if judged and st["want"] is not None:
        need(bool(got) == st["want"], "an update in the course of a chain does not accept with the balancing probability", expected=st["want"], log_ratio=st["log_ratio"],
             tree=before, sigma=sigma, target=list(map(float, target))[:12], **d)
        cov.executions += 1
        cov.transitions += 1
        cov.outcomes.add((bool(got), type(before) is tuple))

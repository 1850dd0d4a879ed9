"""C25: acceptance trace."""
import itertools
from fractions import Fraction

import numpy as np

from bartpy.data import Data
from bartpy.model import Model
from bartpy.samplers.modelsampler import ModelSampler
from bartpy.samplers.oblivioustrees import treemutation as oblivious
from bartpy.samplers.sigma import SigmaSampler
from bartpy.samplers.schedule import SampleSchedule
from bartpy.sigma import Sigma
from bartpy.sklearnmodel import SklearnModel

from mc import real, ref
from mc.backends import isolated
from mc.core import Coverage, explore, need
from mc.rng import Controller
from checks import common
from checks.c05 import Fixed
from checks.c12 import kept

X = np.array([[0.0, 1.0], [1.0, 0.0], [2.0, 2.0], [3.0, 1.0]])
Y = np.array([1.0, 3.0, 2.0, 5.0])


def items(tier):
    q = tier == "quick"
    out = []
    for nt in (1, 2, 3):
        for burn in (0, 1, 2):
            for n in (1, 2, 3, 4):
                bits = nt * (burn + n)
                if bits <= (9 if q else 12):
                    out.append({"kind": "pattern", "nt": nt, "burn": burn, "n": n, "thin": 1.0})
                    if n > 1:
                        out.append({"kind": "pattern", "nt": nt, "burn": burn, "n": n, "thin": 0.5})
    for nt in ((5, 6) if q else (5, 6, 7, 8, 9)):
        out.append({"kind": "pattern", "nt": nt, "burn": 0, "n": 1, "thin": 1.0})
    for nt in (20, 50, 101):
        out.append({"kind": "many", "nt": nt})
    out.append({"kind": "long", "n": 1100})
    for how in ("sequential", "isolated"):
        for nt, chains, n in ((1, 2, 2), (2, 2, 1), (2, 1, 2), (3, 2, 1), (1, 3, 1)):
            out.append({"kind": "fit", "nt": nt, "chains": chains, "n": n, "how": how})
    for name in ("unconstrained", "oblivious"):
        for nt in (1, 2, 3):
            for u in (1e-9, 0.3, 0.8):
                out.append({"kind": "real", "name": name, "nt": nt, "u": u, "dev": 3 if q else 4})
    return out


def bounds(tier):
    return {"patterns": "every pattern of accepted and rejected updates, trees x (burn-in + samples) up to %d; 1-%d trees; some patterns with 20, 50 and 101 trees, up to 1100 samples and 9 chains" % (9 if tier == "quick" else 12, 6 if tier == "quick" else 9),
            "fits": "1-3 chains, sequential and isolated as in worker processes", "shipped samplers": "both, structures compared before and after each update, up to 3 choices of moves changed"}


class Pattern:
    """Accepts as the bits say: an accepted update makes a real move."""

    def __init__(self, bits, log=None):
        self.bits, self.pos, self.done = bits, 0, []

    def step(self, model, tree):
        k = self.pos
        self.pos += 1
        ok = self.bits[k % len(self.bits)]
        self.done.append(ok)
        if not ok:
            return None
        c = real.canon(tree)
        moves = ref.moves(c, X)
        m = moves[(3 * k) % len(moves)]
        out = real.do(tree, m[:4])
        return [out] if k % 5 == 4 else out


def samplers(ts):
    return SampleSchedule(ts, common.own_leaf_sampler(), SigmaSampler())


def run(item):
    return {"pattern": run_pattern, "fit": run_fit, "many": run_many, "long": run_long, "real": run_real}[item["kind"]](item)



def check_trace(acc, done, nt, burn, n, thin_, **d):
    idx = kept(n, thin_)
    need(len(acc) == len(idx), "not one acceptance entry per stored sample", got=len(acc), expected=len(idx), **d)
    for j, s in enumerate(idx):
        sweep = done[(burn + s) * nt:(burn + s + 1) * nt]
        need("Tree" in acc[j] and abs(float(acc[j]["Tree"]) - sum(sweep) / nt) < 1e-12, "an acceptance entry is not the fraction of trees changed in its sweep", sample=j, got=dict(acc[j]),
             expected=sum(sweep) / nt, accepted=sweep, **d)


def run_pattern(item):
    cov = Coverage()
    nt, burn, n, thin = item["nt"], item["burn"], item["n"], item["thin"]
    for bits in itertools.product((False, True), repeat=nt * (burn + n)):
        ts = Pattern(bits)
        model = Model(Data(X.copy(), Y.copy(), normalize=True), Sigma(1.0, 1.0, 1.0), n_trees=nt, initializer=None)
        with Controller(z=0.3, g=1.0):
            chain = ModelSampler(samplers(ts)).samples(model, n, burn, thin, bits[0], True)
        d = dict(trees=nt, n_burn=burn, n_samples=n, thin=thin, pattern=bits)
        need(len(ts.done) == nt * (burn + n), "not every tree was updated once per sweep", **d)
        need(len(chain["model"]) == len(kept(n, thin)), "wrong number of samples", **d)
        check_trace(chain["acceptance"], ts.done, nt, burn, n, thin, **d)
        cov.states += 1
        cov.executions += 1
        cov.transitions += len(bits)
        cov.outcomes.add(tuple(float(a["Tree"]) for a in chain["acceptance"]))
    cov.sample({"trees": nt, "n_burn": burn, "n_samples": n, "thin": thin})
    return cov


def run_many(item):
    cov = Coverage()
    nt = item["nt"]
    for k in range(2, 6):
        bits = [(i * i + k) % (k + 1) < 2 for i in range(nt * 5)]
        ts = Pattern(bits)
        model = Model(Data(X.copy(), Y.copy(), normalize=True), Sigma(1.0, 1.0, 1.0), n_trees=nt, initializer=None)
        with Controller(z=0.3, g=1.0):
            chain = ModelSampler(samplers(ts)).samples(model, 4, 1, 1.0, False, True)
        check_trace(chain["acceptance"], ts.done, nt, 1, 4, 1.0, trees=nt)
        cov.states += 1
        cov.executions += 1
        cov.transitions += len(bits)
    return cov


def run_long(item):
    """Longer chains, through the estimator."""
    cov = Coverage()
    for nt, chains, n in ((1, 1, item["n"]), (2, 2, item["n"] // 4), (1, 9, 40)):
        bits = [(i * i + i // 5) % 7 < 3 for i in range(nt * n * chains)]
        ts = Pattern(bits)
        est = common.fresh(n_trees=nt, n_chains=chains, n_samples=n, tree_sampler=ts, store_acceptance_trace=True)
        with Controller(z=0.3, g=1.0):
            est.fit(X, Y)
        acc = list(est.acceptance_trace)
        need(len(acc) == chains * n, "not one acceptance entry per stored sample", got=len(acc), expected=chains * n)
        check_trace(acc, ts.done, nt, 0, chains * n, 1.0, trees=nt, chains=chains)
        cov.states += chains * n
        cov.executions += 1
        cov.transitions += len(bits)
    return cov


def run_fit(item):
    cov = Coverage()
    nt, chains, n = item["nt"], item["chains"], item["n"]
    per = nt * n
    total = per * chains if item["how"] == "sequential" else per
    for bits in itertools.product((False, True), repeat=total):
        ts = Pattern(bits)
        est = common.fresh(n_trees=nt, n_chains=chains, n_samples=n, tree_sampler=ts, store_acceptance_trace=True, n_jobs=1 if item["how"] == "sequential" else 2)
        with Controller(z=0.3, g=1.0):
            if item["how"] == "isolated":
                with isolated():
                    est.fit(X, Y)
            else:
                est.fit(X, Y)
        acc = list(est.acceptance_trace)
        d = dict(trees=nt, chains=chains, n_samples=n, pattern=bits, run=item["how"])
        need(len(acc) == chains * n, "not one acceptance entry per stored sample", got=len(acc), **d)
        for c in range(chains):
            done = list(bits[c * per:(c + 1) * per]) if item["how"] == "sequential" else list(bits)
            check_trace(acc[c * n:(c + 1) * n], done, nt, 0, n, 1.0, chain=c, **d)
        cov.states += 1
        cov.executions += 1
        cov.transitions += total
    # not requested: nothing is recorded
    est = common.fresh(n_trees=nt, n_chains=chains, n_samples=n, tree_sampler=Pattern((True,)), store_acceptance_trace=False)
    with Controller(z=0.3, g=1.0):
        est.fit(X, Y)
    need(len(est.acceptance_trace) == 0, "an acceptance trace was stored though not requested", **dict(trees=nt))
    return cov


class Watch:
    def __init__(self, inner):
        self.inner, self.done = inner, []

    def step(self, model, tree):
        before = shape(tree)
        out = self.inner.step(model, tree)
        self.done.append(before != shape(tree))
        return out


def shape(tree):
    return sorted((p, real.rows_of(n)) for p, n in real.index(tree).items())


def run_real(item):
    cov = Coverage()
    nt = item["nt"]

    def path(ch):
        if item["name"] == "unconstrained":
            inner = common.own_sampler()
            from bartpy.samplers.unconstrainedtree.treemutation import UnconstrainedTreeMutationSampler as S
        else:
            inner = oblivious.get_tree_sampler(0.5, 0.5)
            S = oblivious.UnconstrainedTreeMutationSampler
        ts = Watch(S(inner.proposer, inner.likihood_ratio, Fixed(item["u"])))
        model = Model(Data(X.copy(), Y.copy(), normalize=True), Sigma(1.0, 1.0, 1.0), n_trees=nt, initializer=None)
        model.sigma.set_value(0.1)
        with Controller(pick=ch.pick, z=0.3, g=1.0, retry=True):
            chain = ModelSampler(samplers(ts)).samples(model, 4, 1, 1.0, False, True)
        return ts.done, chain
    for ch, out in explore(path, limit=60, max_deviations=item["dev"] if nt < 3 else 2):
        cov.executions += 1
        if ch.truncated:
            cov.truncated += 1
            continue
        done, chain = out
        check_trace(chain["acceptance"], done, nt, 1, 4, 1.0, sampler=item["name"], trees=nt, u=item["u"], choices=ch.choices)
        cov.states += 1
        cov.transitions += len(done)
        cov.outcomes.add(tuple(done))
    return cov

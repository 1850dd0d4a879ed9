"""C12: which samples are kept."""
import itertools
import math
from fractions import Fraction

import joblib
import numpy as np

from bartpy.data import Data
from bartpy.model import Model
from bartpy.samplers.modelsampler import ModelSampler
from bartpy.samplers.schedule import SampleSchedule
from bartpy.sigma import Sigma
from bartpy.sklearnmodel import SklearnModel
from bartpy.tree import Tree

from mc import real, ref
from mc.backends import isolated
from mc.core import Coverage, need

THINS = [1.0, 0.5, 0.1, 0.2, 0.25, 0.3, 1 / 3, 0.7, 0.9, 0.05, 0.01, 0.15, 2 / 3, 0.6, 0.8, 1, 0.999, 0.99, 0.001, 0.37, 0.03, 0.04, 0.02, 0.007, 0.0125, 0.33333, 0.9999, 0.12499, 0.0049]


def exact(thin):
    """The fraction that a thin stands for."""
    f = Fraction(thin).limit_denominator(1000)
    return f if abs(float(f) - thin) < 1e-12 else Fraction(thin)


class Clock:
    """Per model sweep counter: the tree sampler advances it on the first tree of a sweep."""

    def __init__(self):
        self.count, self.order = {}, []

    def of(self, model):
        k = id(model)
        if k not in self.count:
            self.count[k] = 0
            self.order.append(model)
        return self.order.index(model) if False else [i for i, m in enumerate(self.order) if m is model][0], self.count[k]


class TreeStub:
    """Accepts a (cosmetic) move on tree i in sweep s when bit i of s is set."""

    def __init__(self, clock):
        self.clock = clock

    def step(self, model, tree):
        self.clock.of(model)
        if tree is model.trees[0]:
            self.clock.count[id(model)] += 1
        i = [j for j, t in enumerate(model.trees) if t is tree][0]
        return object() if accepted(self.clock.count[id(model)], i) else None


def accepted(s, i):
    return (s >> i) & 1 == 1


class LeafStub:
    def __init__(self, clock):
        self.clock = clock

    def step(self, model, node):
        c, s = self.clock.of(model)
        node.set_value(value(c, s))
        return node.current_value


class SigmaStub:
    def __init__(self, clock):
        self.clock = clock

    def step(self, model, sigma):
        c, s = self.clock.of(model)
        sigma.set_value(1000.0 * c + s + 0.5)
        return sigma.current_value()


def value(c, s):
    return 100000.0 * (c + 1) + s


def kept(n, thin):
    f = exact(thin)
    return [s for s in range(n) if math.floor(s * f) > math.floor((s - 1) * f)]


def items(tier):
    q = tier == "quick"
    ns = list(range(0, 13)) + [20, 21, 33, 50] + ([] if q else list(range(13, 41)) + [64, 99, 100, 101, 200, 300])
    out = [{"kind": "sampler", "thin": t, "burns": [0, 1, 2, 7], "ns": ns, "nt": nt} for t in THINS for nt in ((1, 3) if not q else (2,))]
    out += [{"kind": "sampler", "thin": t, "burns": [0, 130], "ns": [1003, 2100] if q else [1003, 2100, 5000], "nt": 1} for t in THINS]
    out += [{"kind": "sampler", "thin": t, "burns": [333], "ns": [3, 25, 60], "nt": 1} for t in THINS]
    for how in ("sequential", "isolated", "threads"):
        for chains in (1, 2, 3):
            out.append({"kind": "fit", "how": how, "chains": chains, "thins": [1.0, 0.5, 0.1, 0.3] if q else THINS,
                        "burns": [0, 2], "ns": [1, 2, 5, 11] if q else [1, 2, 3, 5, 8, 11, 20, 31]})
    out += [{"kind": "fit", "how": how, "chains": 12, "thins": [1.0, 0.5], "burns": [0, 1], "ns": [1, 3]} for how in ("sequential", "threads")]
    out.append({"kind": "fit", "how": "sequential", "chains": 1, "thins": [1.0, 0.1], "burns": [0, 203], "ns": [1003]})
    return out


def bounds(tier):
    return {"thin": THINS, "n_burn": [0, 1, 2, 7, 130, 333], "n_samples": "0-12, 20, 21, 33, 50, 1003, 2100 (thorough: 0-40 and up to 5000)", "flags": "all four",
            "fit": "1-3 and 12 chains (up to 1003 samples), run sequentially, by threads, and isolated as in worker processes"}


def run(item):
    return run_sampler(item) if item["kind"] == "sampler" else run_fit(item)


def data():
    X = np.array([[0.0], [1.0], [2.0]])
    return X, np.array([1.0, 4.0, 2.0])


def check_samples(chain, n, burn, thin, sp, sa, nt, c, d, np_rows=3):
    idx = kept(n, thin)
    f = exact(thin)
    assert len(idx) == (0 if n == 0 else math.floor((n - 1) * f) + 1)
    need(len(chain["model"]) == len(idx), "wrong number of stored samples", got=len(chain["model"]), expected=len(idx), **d)
    need(len(chain["in_sample_predictions"]) == (len(idx) if sp else 0), "wrong number of stored training predictions",
         got=len(chain["in_sample_predictions"]), expected=len(idx) if sp else 0, **d)
    need(len(chain["acceptance"]) == (len(idx) if sa else 0), "wrong number of acceptance entries",
         got=len(chain["acceptance"]), expected=len(idx) if sa else 0, **d)
    for j, s in enumerate(idx):
        sweep = burn + s + 1
        m = chain["model"][j]
        need(len(m.trees) == nt and all(l.current_value == value(c, sweep) for t in m.trees for l in t.leaf_nodes),
             "a stored model is not the one after its sweep", sample=j, expected_sweep=sweep, got=m.trees[0].leaf_nodes[0].current_value, **d)
        need(m.sigma.current_value() == 1000.0 * c + sweep + 0.5, "a stored noise level is not the one after its sweep", sample=j, **d)
        if sp:
            p = np.asarray(chain["in_sample_predictions"][j], dtype=float)
            need(p.shape == (np_rows,) and np.allclose(p, nt * value(c, sweep)), "a stored training prediction belongs to another sweep", sample=j,
                 got=p.tolist(), expected=nt * value(c, sweep), **d)
        if sa:
            a = chain["acceptance"][j]
            want = sum(accepted(sweep, i) for i in range(nt)) / nt
            need(abs(a["Tree"] - want) < 1e-12, "a stored acceptance rate belongs to another sweep", sample=j, got=dict(a), expected=want, **d)


def run_sampler(item):
    cov = Coverage()
    X, y = data()
    nt, thin = item["nt"], item["thin"]
    for n, burn, sp, sa in itertools.product(item["ns"], item["burns"], (True, False), (True, False)):
        if n > 15 and (burn == 7 or sp != sa):
            continue
        clock = Clock()
        model = Model(Data(X, y), Sigma(1.0, 1.0, 1.0), n_trees=nt, initializer=None)
        ms = ModelSampler(SampleSchedule(TreeStub(clock), LeafStub(clock), SigmaStub(clock)))
        chain = ms.samples(model, n, burn, thin, sp, sa)
        d = dict(n_samples=n, n_burn=burn, thin=thin, store_in_sample_predictions=sp, store_acceptance=sa)
        if n + burn:
            need(clock.count.get(id(model), 0) == n + burn, "wrong number of sweeps", got=clock.count.get(id(model), 0), expected=n + burn, **d)
        check_samples(chain, n, burn, thin, sp, sa, nt, 0, d)
        cov.states += 1
        cov.executions += 1
        cov.transitions += n + burn
        cov.outcomes.add((n, len(chain["model"])))
    cov.sample({"thin": thin, "kept of 12": kept(12, thin)})
    return cov


def run_fit(item):
    cov = Coverage()
    X, y = data()
    nt, chains = 2, item["chains"]
    for n, burn, thin, sp, sa in itertools.product(item["ns"], item["burns"], item["thins"], (True, False), (True, False)):
        clock = Clock()
        est = SklearnModel(n_trees=nt, n_chains=chains, n_samples=n, n_burn=burn, thin=thin, n_jobs=1 if item["how"] == "sequential" else 2,
                           store_in_sample_predictions=sp, store_acceptance_trace=sa, tree_sampler=TreeStub(clock))
        est.schedule.leaf_sampler, est.schedule.sigma_sampler = LeafStub(clock), SigmaStub(clock)
        if item["how"] == "sequential":
            est.fit(X, y)
        elif item["how"] == "isolated":
            with isolated():
                est.fit(X, y)
        else:
            with joblib.parallel_config(backend="threading"):
                est.fit(X, y)
        d = dict(n_samples=n, n_burn=burn, thin=thin, n_chains=chains, run=item["how"], store_in_sample_predictions=sp, store_acceptance_trace=sa)
        k = len(kept(n, thin))
        need(len(est.model_samples) == k * chains, "wrong number of samples over all chains", got=len(est.model_samples), expected=k * chains, **d)
        need(len(est.prediction_samples) == (k * chains if sp else 0), "wrong number of training predictions over all chains",
             got=len(est.prediction_samples), **d)
        need(len(est.acceptance_trace) == (k * chains if sa else 0), "wrong number of acceptance entries over all chains",
             got=len(est.acceptance_trace), **d)
        seen = []
        for c in range(chains):
            part = {"model": est.model_samples[c * k:(c + 1) * k],
                    "in_sample_predictions": est.prediction_samples[c * k:(c + 1) * k] if sp else [],
                    "acceptance": est.acceptance_trace[c * k:(c + 1) * k] if sa else []}
            v = part["model"][0].trees[0].leaf_nodes[0].current_value
            cc = int(v // 100000.0) - 1
            seen.append(cc)
            check_samples(part, n, burn, thin, sp, sa, nt, cc, dict(d, chain=c))
        want = list(range(chains)) if item["how"] == "sequential" else sorted(seen) if item["how"] == "threads" else [0] * chains
        if item["how"] == "threads":
            need(sorted(seen) == list(range(chains)), "a chain was lost or repeated", got=seen, **d)
        else:
            need(seen == want, "chains are not concatenated in order", got=seen, **d)
        need(len(est.extract) == chains, "wrong number of chains in the extract", got=len(est.extract), **d)
        cov.states += 1
        cov.executions += 1
        cov.transitions += chains * (n + burn)
    return cov

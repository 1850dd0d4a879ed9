"""Samplers whose draws come from a stream that belongs to the sampled model: what a chain does depends on its data and on
which of the chains on that data it is, not on the order in which chains are run."""
import hashlib

import numpy as np

from bartpy.samplers.leafnode import LeafNodeSampler
from bartpy.samplers.scalar import NormalScalarSampler, UniformScalarSampler
from bartpy.samplers.sigma import SigmaSampler
from bartpy.samplers.unconstrainedtree.treemutation import UnconstrainedTreeMutationSampler

from checks import common
from checks.c16 import Stateless

_chains = {}
_of = {}        # id of a sampled model -> (the model, its stream)


def reset():
    _chains.clear()
    _of.clear()


def stream(model):
    s = _of.get(id(model), (None, None))[1]
    if s is None:
        y = np.asarray(model.data.y.unnormalized_y, dtype=float)
        key = hashlib.md5(np.ascontiguousarray(np.asarray(model.data.X.values, dtype=float)).tobytes() + y.tobytes()).hexdigest()
        chain = _chains.get(key, 0)
        _chains[key] = chain + 1
        s = common.Tape(int(key[:6], 16) + 97 * chain)
        _of[id(model)] = model, s
    return s


class Streamed:
    def __init__(self, inner):
        self.inner = inner

    def step(self, model, target):
        with stream(model):
            return self.inner.step(model, target)


def sampler():
    base = common.own_sampler()
    return Streamed(UnconstrainedTreeMutationSampler(Stateless(), base.likihood_ratio, scalar_sampler=UniformScalarSampler(1)))


def make(cls=None, **kw):
    from bartpy.sklearnmodel import SklearnModel
    kw.setdefault("n_trees", 2)
    kw.setdefault("n_samples", 3)
    kw.setdefault("n_burn", 1)
    kw.setdefault("thin", 1.0)
    kw.setdefault("n_chains", 1)
    kw.setdefault("n_jobs", 1)
    kw.setdefault("store_in_sample_predictions", True)
    kw.setdefault("store_acceptance_trace", True)
    kw.setdefault("tree_sampler", sampler())
    est = (cls or SklearnModel)(**kw)
    est.schedule.leaf_sampler = Streamed(LeafNodeSampler(NormalScalarSampler(1)))
    est.schedule.sigma_sampler = Streamed(SigmaSampler())
    return est

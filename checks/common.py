"""Shared menus of bounded inputs."""
from mc import ref


def dataset_spec(tier):
    # (rows, columns, take every k-th with offset)
    if tier == "quick":
        return [(1, 1, 1), (2, 1, 1), (3, 1, 1), (4, 1, 1), (1, 2, 1), (2, 2, 1), (3, 2, 1)]
    return [(1, 1, 1), (2, 1, 1), (3, 1, 1), (4, 1, 1), (5, 1, 1), (1, 2, 1), (2, 2, 1), (3, 2, 1), (4, 2, 7), (2, 3, 1), (3, 3, 9)]


def datasets(tier, spec=None):
    out = []
    for n, p, k in (spec or dataset_spec(tier)):
        for i, m in enumerate(ref.rank_matrices(n, p)):
            if i % k == 0:
                out.append(([list(c) for c in m], i % len(ref.TABLES)))
    return out


def deep_datasets(tier):
    """Larger data with all trees up to a cap on their number (breadth first)."""
    out = [
        ([[3, 1, 4, 0, 5, 2]], 188 if tier == "quick" else None),                      # 6 distinct rows, 188 trees
        ([[0, 1, 2, 3, 4], [1, 0, 1, 0, 2]], 250 if tier == "quick" else 4000),
        ([[0, 1, 0, 1], [0, 0, 1, 1], [2, 1, 0, 0]], 150 if tier == "quick" else 3000),
        ([[7, 6, 5, 4, 3, 2, 1, 0]], 300 if tier == "quick" else 2950),
        ([[i % 5 for i in range(24)], [i % 3 for i in range(24)]], 120 if tier == "quick" else 1500),
    ]
    return out


def describe(tier, spec=None):
    s = spec or dataset_spec(tier)
    return "all covariate matrices up to order isomorphism, row order kept, for (rows, columns) in %s (value tables rotate), " \
           "plus %d larger ones with a cap on trees" % (["%dx%d%s" % (n, p, "" if k == 1 else " (every %dth)" % k) for n, p, k in s],
                                                       len(deep_datasets(tier)))


# ------------------------------------------------------------------ estimators whose draws are all fresh
def own_sampler(p_grow=0.5, p_prune=0.5, cache=1):
    from bartpy.samplers.scalar import UniformScalarSampler
    from bartpy.samplers.unconstrainedtree.treemutation import UnconstrainedTreeMutationSampler, get_tree_sampler
    base = get_tree_sampler(p_grow, p_prune)
    return UnconstrainedTreeMutationSampler(base.proposer, base.likihood_ratio, scalar_sampler=UniformScalarSampler(cache))


def own_leaf_sampler(cache=1):
    from bartpy.samplers.leafnode import LeafNodeSampler
    from bartpy.samplers.scalar import NormalScalarSampler
    return LeafNodeSampler(NormalScalarSampler(cache))


def fresh(cls=None, **kw):
    """An estimator that shares no cached draws with any other."""
    from bartpy.sklearnmodel import SklearnModel
    kw.setdefault("n_jobs", 1)
    kw.setdefault("thin", 1.0)
    kw.setdefault("n_burn", 0)
    kw.setdefault("n_chains", 1)
    if "tree_sampler" not in kw:
        kw["tree_sampler"] = own_sampler()
    est = (cls or SklearnModel)(**kw)
    est.schedule.leaf_sampler = own_leaf_sampler()
    return est


class Tape:
    """Deterministic stream of draws, the same for every run started with the same number."""

    def __new__(cls, number, ch=None, us=(0.02, 0.6, 0.98)):
        from mc.rng import Controller
        st = [number * 7919 + 11]

        def nxt():
            st[0] = (st[0] * 1103515245 + 12345) % (1 << 31)
            return (st[0] >> 8) / float(1 << 23)

        def pick(n, w=None, what=""):
            x, acc = nxt(), 0.0
            w = w or [1.0 / n] * n
            for i in range(n):
                acc += w[i]
                if x < acc and w[i] > 0:
                    return i
            return max(i for i in range(n) if w[i] > 0)
        u = (lambda: us[ch.pick(len(us))]) if ch is not None else nxt
        return Controller(pick=pick, u=u, z=lambda: 2.4 * nxt() - 1.2, g=lambda shape: shape * (0.5 + nxt()))


def states_of(est):
    """Stored samples as nested reference values."""
    from bartpy.node import LeafNode
    from mc import real
    out = []
    for m in est.model_samples:
        st = []
        for t in m.trees:
            idx = real.index(t)
            st.append((real.canon(t), {p: float(n.current_value) for p, n in idx.items() if type(n) == LeafNode}))
        out.append((st, float(m.sigma.current_value())))
    return out


BARE = [False]


def tree_sampler(mod, pg, pp):
    """mod.get_tree_sampler, or (while BARE is set) a sampler of the parts as they are by default."""
    if not BARE[0]:
        return mod.get_tree_sampler(pg, pp)
    assert (pg, pp) == (0.5, 0.5)
    return mod.UnconstrainedTreeMutationSampler(mod.UniformMutationProposer(), mod.UniformTreeMutationLikihoodRatio())

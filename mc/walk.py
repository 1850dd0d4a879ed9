"""Trees as the default tree update makes them: every sequence of accepted updates of the real sampler (proposal, ratio, application),
each random choice enumerated, up to a number of steps."""
from bartpy.data import Data
from bartpy.model import Model
from bartpy.sigma import Sigma

from mc import real, ref
from mc.core import Chooser, explore, need
from mc.rng import Controller

LIMIT = 14


def step(sampler, model, tree, pick):
    with Controller(pick=pick, u=1e-290, retry=True):
        return sampler.step(model, tree)


def replay(make, X, y, hist, between=None):
    model = Model(Data(X.copy(), y.copy()), Sigma(1.0, 1.0, 1.0), n_trees=1, initializer=None)
    tree = model.trees[0]
    for j, trace in enumerate(hist):
        ch = Chooser(trace, LIMIT)
        step(make(), model, tree, ch.pick)
        if between is not None:
            between(model, tree, j)
    return model, tree


def walks(make, X, y, depth, cap, cov, visit, between=None):
    """visit(model, tree, t, path) at every state; t is the reference form.  between(model, tree, j) runs after every earlier update."""
    queue, seen = [((), (None,))], set()
    while queue:
        hist, path = queue.pop(0)

        def one(ch):
            model, tree = replay(make, X, y, hist, between)
            before = real.canon(tree)
            m = step(make(), model, tree, ch.pick)
            return model, tree, before, m
        if not ref.moves(path[-1], X):
            continue
        for ch, out in explore(one, limit=LIMIT):
            cov.executions += 1
            cov.transitions += 1
            if ch.truncated:
                cov.truncated += 1
                continue
            model, tree, before, m = out
            d = dict(data=X.tolist(), trees=path, choices=[t for t in hist] + [ch.trace])
            need(before == path[-1], "the same updates gave another tree", got=before, **d)
            t = real.canon(tree)
            if m is None:
                need(t == before, "an update that reports no move changed the tree", got=t, **d)
            else:
                need(t in [ref.apply(before, a) for a in ref.moves(before, X)], "an update gave a tree that is not one move away", got=t, **d)
            visit(model, tree, t, d)
            idx = real.index(tree)
            at = {id(n): p for p, n in idx.items()}
            key = (t, tuple(at.get(id(n)) for n in tree.nodes))
            if key not in seen and len(seen) < cap and len(hist) + 1 < depth and m is not None:
                seen.add(key)
                cov.states += 1
                queue.append((hist + (tuple(ch.trace),), path + (t,)))


def menu(tier):
    """(columns, steps, cap)"""
    q = tier == "quick"
    return [([[0, 1, 2]], 4 if q else 6, 40 if q else 400), ([[1, 0, 2, 3]], 4 if q else 6, 40 if q else 400), ([[0, 1, 1]], 4, 40), ([[0, 1], [1, 0]], 4, 40),
            ([[0, 1, 0], [0, 0, 1]], 4 if q else 5, 40 if q else 300), ([[4, 2, 0, 1, 3]], 4 if q else 6, 40 if q else 600), ([[0, 0, 1, 1], [0, 1, 2, 2]], 3 if q else 5, 30 if q else 300)]

"""Reference model: plain nested tuples.  A tree is None (leaf) or (var, value, left, right)."""
import itertools
import math

import numpy as np

# Values used for the ranks 0, 1, 2, ... of a column: negatives, zero as value / maximum / minimum, large, tiny gaps.
TABLES = [
    [-1.5, 0.0, 2.0, 1e6, 2e6, 3e6, 4e6, 5e6],
    [0.0, 1.0, 2.5, 9.0, 10.0, 11.5, 12.0, 20.0],
    [-3.0, -2.0, 0.0, 0.25, 0.5, 0.75, 1.0, 2.0],
    [1.0, 1.0 + 1e-9, 1.5, 2.0, 3.0, 4.0, 5.0, 6.0],
]


def rank_columns(n):
    """All length n columns up to order isomorphism: entries are ranks, the used ranks are 0..k-1."""
    out = []
    for c in itertools.product(range(n), repeat=n):
        if set(c) == set(range(max(c) + 1)):
            out.append(c)
    return out


def matrix(columns, shift=0):
    """Columns of ranks -> float matrix (rows x columns), ranks replaced by table values."""
    cols = [[TABLES[(j + shift) % len(TABLES)][r] for r in c] for j, c in enumerate(columns)]
    return np.array(cols, dtype=float).T


def rank_matrices(n, p):
    return [list(m) for m in itertools.product(rank_columns(n), repeat=p)]


def targets(n, kind=0):
    base = [[0.5, -1.25, 3.0, 0.75, -2.5, 1.5, 4.25, -0.375], [1.0, 2.0, -1.0, 4.0, 0.25, -3.5, 0.0, 2.75]][kind % 2]
    return np.array([base[i % 8] + (i // 8) * 0.0625 for i in range(n)])


# ------------------------------------------------------------------ trees
def splittable(X, rows):
    return [v for v in range(X.shape[1]) if len(set(X[r, v] for r in rows)) > 1]


def grow_moves(X, rows):
    """(var, value, probability) of every split of a leaf holding rows."""
    vs = splittable(X, rows)
    out = []
    for v in vs:
        col = [X[r, v] for r in rows]
        m = max(col)
        below = [c for c in col if c != m]
        for val in sorted(set(below)):
            out.append((v, val, below.count(val) / len(below) / len(vs)))
    return out


def walk(tree, X, rows=None, depth=0, path=()):
    """Yield (path, subtree, rows, depth) for all nodes, preorder."""
    if rows is None:
        rows = tuple(range(len(X)))
    yield path, tree, rows, depth
    if tree is not None:
        v, val, l, r = tree
        yield from walk(l, X, tuple(i for i in rows if X[i, v] <= val), depth + 1, path + (0,))
        yield from walk(r, X, tuple(i for i in rows if X[i, v] > val), depth + 1, path + (1,))


def leaves(tree, X):
    return [x for x in walk(tree, X) if x[1] is None]


def prunable(tree, X):
    return [x for x in walk(tree, X) if x[1] is not None and x[1][2] is None and x[1][3] is None]


def replace(tree, path, new):
    if not path:
        return new
    v, val, l, r = tree
    if path[0] == 0:
        return (v, val, replace(l, path[1:], new), r)
    return (v, val, l, replace(r, path[1:], new))


def route(tree, x):
    """Path of the leaf a row falls into."""
    path = ()
    while tree is not None:
        v, val, l, r = tree
        if x[v] <= val:
            tree, path = l, path + (0,)
        else:
            tree, path = r, path + (1,)
    return path


def moves(tree, X):
    """All moves: ('grow', path, var, value, prob_within_leaf) and ('prune', path)."""
    out = []
    for path, _, rows, _ in leaves(tree, X):
        for v, val, pr in grow_moves(X, rows):
            out.append(("grow", path, v, val, pr))
    for path, _, _, _ in prunable(tree, X):
        out.append(("prune", path))
    return out


def apply(tree, move):
    if move[0] == "grow":
        return replace(tree, move[1], (move[2], move[3], None, None))
    return replace(tree, move[1], None)


def proposal_distribution(tree, X, p_grow, p_prune):
    """Exact distribution of moves of the default proposer."""
    gl = [(path, grow_moves(X, rows)) for path, _, rows, _ in leaves(tree, X)]
    gl = [(p, g) for p, g in gl if g]
    pr = prunable(tree, X)
    pg, pp = p_grow / (p_grow + p_prune), p_prune / (p_grow + p_prune)
    if not gl:
        pg, pp = 0.0, 1.0
    elif not pr:
        pg, pp = 1.0, 0.0
    out = {}
    for path, g in gl:
        for v, val, q in g:
            out[("grow", path, v, val)] = pg * q / len(gl)
    for path, _, _, _ in pr:
        out[("prune", path)] = pp / len(pr)
    return out


def all_trees(X, cap=None, max_depth=None):
    """All trees reachable by moves, breadth first, each with a shortest move history."""
    seen = {None: ()}
    order = [None]
    for t in order:
        for m in moves(t, X):
            if max_depth is not None and m[0] == "grow" and len(m[1]) >= max_depth:
                continue
            t2 = apply(t, m)
            if t2 not in seen:
                if cap is not None and len(order) >= cap:
                    return order, seen
                seen[t2] = seen[t] + (m[:4],)
                order.append(t2)
    return order, seen


# ------------------------------------------------------------------ posterior
def log_marginal(r, sigma, sigma_mu):
    """log density of residuals r of one leaf, leaf value integrated out."""
    n = len(r)
    s2, m2 = sigma ** 2, sigma_mu ** 2
    S, Q = sum(r), sum(x * x for x in r)
    return (-0.5 * n * math.log(2 * math.pi) - 0.5 * (n - 1) * math.log(s2) - 0.5 * math.log(s2 + n * m2)
            - 0.5 / s2 * (Q - m2 * S * S / (s2 + n * m2)))


def log_posterior(tree, X, r, sigma, sigma_mu, alpha, beta):
    lp = 0.0
    for path, sub, rows, depth in walk(tree, X):
        ps = alpha * (1.0 + depth) ** (-beta)
        if sub is None:
            lp += math.log(1 - ps) + log_marginal([r[i] for i in rows], sigma, sigma_mu)
        else:
            q = [g[2] for g in grow_moves(X, rows) if g[0] == sub[0] and g[1] == sub[1]]
            lp += math.log(ps) + math.log(q[0])
    return lp


# ------------------------------------------------------------------ query points
def grid(X, extra=(), cap=4000):
    """Query rows: per column every value, points between, just above and far outside; full product."""
    axes = []
    for j in range(X.shape[1]):
        v = sorted(set(X[:, j]) | set(extra))
        pts = [v[0] - 1.0, -1e300]
        for a, b in zip(v, v[1:]):
            pts += [a, (a + b) / 2]
        pts += [v[-1], np.nextafter(v[-1], np.inf), 1e300]
        axes.append(pts)
    rows = list(itertools.islice(itertools.product(*axes), cap))
    return np.array(rows, dtype=float)

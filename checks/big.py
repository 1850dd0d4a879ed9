"""A few data sets and move histories far beyond the exhaustively enumerated sizes (many rows, many columns, deep trees): fixed
histories, every state of which is checked, so that what depends on size, depth or number of columns is not left out."""
import numpy as np

from mc import ref


def lcg(seed):
    st = [seed * 7919 + 11]

    def nxt(n):
        st[0] = (st[0] * 1103515245 + 12345) % (1 << 31)
        return (st[0] >> 9) % n
    return nxt


def data(name):
    """(X, y)"""
    r = lcg(len(name))
    if name == "wide":          # more than ten columns, few rows, some columns constant
        X = np.array([[((i * (j + 2)) % 17 // 3) * (1.0 if j % 2 else -0.5) if j not in (3, 11) else 4.0 for j in range(13)] for i in range(7)])
    elif name == "tall":
        X = np.array([[float(r(40)) / 4, float(r(3)), -float(r(200))] for _ in range(130)])
    elif name == "spine":
        X = np.array([[float((i * 7) % 29)] for i in range(29)])
    elif name == "zigzag":      # one split on the last column, then many on the first, alternating sides
        X = np.array([[float((i * 11) % 24), float(i % 5), float(i % 3)] for i in range(48)])
    elif name == "near":        # a constant that is not exact in binary, and values that are nearly equal, tiny, or small next to their size
        X = np.array([[0.1, [1.0, 1.0 + 1e-9, 1.0 + 3e-9][i % 7 % 3], 1e-12 * (i * 11 % 45), 1e9 + 1e-3 * (i * 4 % 9), -2.0 / 3.0, float(i == 44)] for i in range(45)])
    elif name == "ends":        # both zeros, the smallest and the largest numbers, neighbours in the last digit
        big_, e = 1.7e308, 5e-324
        X = np.array([[[0.0, -0.0, 1.0][i % 3], [-big_, 0.0, big_, -1.0][(i * 5) % 4], [-e, 0.0, e][i // 3 % 3], [0.3, np.nextafter(0.3, 1.0), np.nextafter(0.3, 0.0)][i // 2 % 3]] for i in range(22)])
    elif name == "ints":        # whole numbers that differ only beyond the precision of smaller number types
        X = np.array([[16777216.0 + i % 7, 2.0 ** 40 + i * 3 % 5, -(2.0 ** 31) - i * 5 % 3, 2.0 ** 53 - i % 4, float(i % 2)] for i in range(21)])
    elif name == "huge":        # more rows than any block size that might be chosen: late rows are unlike the early ones
        X = np.array([[float(i * 13 % 2100), float(r(6)) + (100.0 if i == 2099 else 0.0), float(i >= 2050)] for i in range(2100)])
    elif name == "broad":       # more columns than rows by far, some of them constant
        X = np.array([[float((i * (j % 5 + 1) + j // 7) % (2 + j % 3 if j % 13 else 1)) - j % 3 for j in range(120)] for i in range(4)])
    else:                       # ties: many rows, two values per column
        X = np.array([[float(r(2)), float(r(2)) * 1e5, float(r(2)) - 0.5, float(r(2))] for _ in range(64)])
    y = np.array([((i * 37) % 23) / 4.0 - 2.0 + 0.01 * i for i in range(len(X))])
    return X, y


NAMES = ["wide", "tall", "spine", "binary", "near"]
MORE = NAMES + ["ends", "huge", "ints", "broad"]
ALL = NAMES + ["zigzag", "ends", "huge", "ints", "broad"]


def history(X, style, steps, seed=1):
    """[(move, tree after it)], deterministic."""
    r = lcg(seed)
    t, out = None, []
    for k in range(steps):
        mv = ref.moves(t, X)
        grow = [m for m in mv if m[0] == "grow"]
        prune = [m for m in mv if m[0] == "prune"]
        if style in ("left", "right"):
            side = 0 if style == "left" else 1
            c = [m for m in grow if all(p == side for p in m[1])]
            c = [m for m in c if len(m[1]) == max(len(x[1]) for x in c)]
            if not c:
                break
            c.sort(key=lambda m: (m[3], m[2]))
            m = c[len(c) - 1 if side == 0 else 0]         # split off as little as possible: as deep as possible
        elif style == "zigzag":
            # the deepest leaf made so far; the first splits use the later columns, the others column 0 from both ends
            first = {0: 2, 1: 1}.get(k, 0)
            deepest = max(len(m[1]) for m in grow) if grow else 0
            c = [m for m in grow if m[2] == first and (t is None or len(m[1]) == deepest)]
            if not c:
                break
            c.sort(key=lambda m: (m[1], m[3]))
            c = [m for m in c if m[1] == c[-1 if k % 2 else 0][1]]
            m = c[(0 if k % 2 else -1)] if k > 1 else c[0]
        elif style == "bushy":
            if not grow:
                break
            d = min(len(m[1]) for m in grow)
            c = [m for m in grow if len(m[1]) == d and m[1] == [x for x in grow if len(x[1]) == d][0][1]]
            m = c[len(c) // 2]
        elif style == "even":       # halves of halves: many leaves that can all be split further
            if not grow:
                break
            d = min(len(m[1]) for m in grow)
            c = [m for m in grow if len(m[1]) == d]
            c = [m for m in c if m[1] == c[0][1]]
            most = max(sum(1 for x in c if x[2] == m[2]) for m in c)
            c = sorted((m for m in c if sum(1 for x in c if x[2] == m[2]) == most), key=lambda m: (m[2], m[3]))
            m = c[len(c) // 2]
        else:
            pool = prune if prune and (not grow or r(5) == 0) else grow
            if not pool:
                break
            m = pool[r(len(pool))]
        m = m[:4]
        t = ref.apply(t, m)
        out.append((m, t))
    return out


def cases(tier):
    q = tier == "quick"
    out = [("wide", "mixed", 14), ("spine", "left", 20), ("spine", "right", 20), ("tall", "mixed", 24), ("binary", "bushy", 15), ("tall", "bushy", 31), ("zigzag", "zigzag", 24), ("near", "mixed", 22), ("ends", "mixed", 18), ("ends", "bushy", 12), ("ints", "mixed", 14), ("huge", "mixed", 9), ("broad", "mixed", 5), ("tall", "even", 40)]
    if not q:
        out += [("tall", "left", 30), ("tall", "right", 30), ("tall", "mixed", 80), ("binary", "mixed", 60), ("wide", "bushy", 20), ("wide", "left", 20)]
    return out


def describe(tier):
    return "fixed long histories %s (rows x columns: %s)" % (["%s %s %d" % c for c in cases(tier)], {n: "%dx%d" % data(n)[0].shape for n in ALL})


def queries(X, count=60):
    """Training rows, and rows that take each column's values, midpoints and outside values from different rows."""
    r = lcg(3)
    axes = []
    for j in range(X.shape[1]):
        v = sorted(set(X[:, j]))
        axes.append([v[0] - 1.0, -1e300] + v + [(a + b) / 2 for a, b in zip(v, v[1:])] + [np.nextafter(v[-1], np.inf), 1e300])
    return np.vstack([X, np.array([[a[r(len(a))] for a in axes] for _ in range(count)])])


def other_types(G, X):
    """The query rows as other number types, each with what it holds exactly: [(rows, the same as doubles)]."""
    out = []
    if np.array_equal(X, np.floor(X)) and np.abs(X).max() < 2.0 ** 62:
        i = np.floor(np.clip(G, -2.0 ** 61, 2.0 ** 61)).astype(np.int64)
        out.append((i, i.astype(float)))
        s = np.floor(np.clip(G, -128, 127)).astype(np.int8)
        out.append((s, s.astype(float)))
    if np.abs(X).max() < 1e30 and np.array_equal(X, X.astype(np.float32).astype(float)):
        f = np.clip(G, -1e30, 1e30).astype(np.float32)
        out.append((f, f.astype(float)))
    return out

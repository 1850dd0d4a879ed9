"""C15: normalization and affine equivariance."""
import itertools

import numpy as np

from bartpy.data import Data, make_bartpy_data

from mc import ref
from mc.core import Coverage, explore, need
from checks import common

VALS = [-2.0, 0.0, 1.0, 3.5]
WIDE = {"int8": [-128, -1, 1, 127], "uint8": [0, 1, 200, 255], "int16": [-32768, 0, 5, 32767], "uint16": [0, 3, 40000, 65535], "int32": [-2 ** 31, 0, 1, 2 ** 31 - 1]}
SCALES = [(1.0, 0.0), (1e-6, 0.0), (1e9, 0.0), (1.0, 1e3), (2.0, -1e6), (1e-3, 5.0), (1e-9, 0.0), (1e-13, 0.0), (1e-150, 0.0), (1e150, 0.0), (1e-8, 1e-6), (1.0, 1e13), (1e-5, 3e8), (1e-310, 0.0), (1e-305, 3e-306)]
AFFINE = [(2.0, 0.0), (0.5, 7.0), (1e-3, 0.0), (1e4, -1e3), (3.0, 1e5), (1.0, 0.25), (1e-8, 0.0), (1e-13, 3e-13), (1e120, 0.0), (1.0, -4.0)]


def items(tier):
    q = tier == "quick"
    out = [{"kind": "norm", "n": n, "scale": s} for n in (1, 2, 3, 4) for s in range(len(SCALES))]
    if not q:
        out += [{"kind": "norm", "n": 5, "scale": s} for s in range(len(SCALES))]
    out += [{"kind": "long", "n": n} for n in (9, 33, 101, 257, 1001, 1500) + (() if q else (4099, 20001, 100003))]
    sets = [([[0, 1, 2], [1, 0, 1]], [3.0, -1.0, 10.0]), ([[0, 1]], [5.0, 5.5]), ([[2, 0, 1, 3]], [1.0, 2.0, 1.5, -1.0]), ([[0, 1, 0]], [0.0, 1.0, 0.25])]
    for i, (c, y) in enumerate(sets):
        for a, b in AFFINE:
            out.append({"kind": "affine", "cols": c, "y": y, "a": a, "b": b, "sweeps": 2 if q else 3, "dev": 3 if q else 4, "tapes": [i] if q else [i, i + 5]})
    return out


def bounds(tier):
    return {"targets": "all vectors of length 1-4 (5) over %s under %s" % (VALS, SCALES), "dtypes": ["float64", "int64", "float32", "int32", "bool"] + ["%s up to its ends" % k for k in WIDE],
            "affine maps": AFFINE, "fits": "all sequences of acceptance draws with up to 3 (4) deviations, 2 trees, 2-3 sweeps"}


def run(item):
    return {"norm": run_norm, "long": run_long, "affine": run_affine}[item["kind"]](item)


def run_norm(item):
    cov = Coverage()
    sc, off = SCALES[item["scale"]]
    n = item["n"]
    X = np.arange(float(n)).reshape(-1, 1)
    for v in itertools.product(VALS, repeat=n):
        y = np.array(v) * sc + off
        variants = [y]
        if item["scale"] == 0:
            variants += [(y * 2).astype(np.int64), (y * 2).astype(np.int32), y.astype(np.float32), y > 0]
            for dt in WIDE:
                variants.append(np.array([WIDE[dt][VALS.index(a)] for a in v], dtype=dt))
        for yy in variants:
            check_norm(X, yy, cov)
        cov.states += 1
    cov.sample({"last y": y.tolist()})
    return cov


def check_norm(X, yy, cov):
    keep = yy.copy()
    f = yy.astype(float)
    lo, hi = f.min(), f.max()
    for d in (Data(X.copy(), yy, normalize=True), make_bartpy_data(X.copy(), yy)):
        det = dict(y=keep.tolist(), dtype=str(yy.dtype))
        t = d.y
        got = np.asarray(t.values, dtype=float)
        need(np.array_equal(yy, keep), "normalization changed the caller's target", **det)
        tol = 1e-6 if yy.dtype == np.float32 else 1e-9
        mag = max(abs(lo), abs(hi), 1e-323)
        if hi > lo:
            exp = -0.5 + (f - lo) / (hi - lo)
            slack = tol * max(1.0, mag / (hi - lo)) if yy.dtype == np.float32 else tol + 4e-15 * mag / (hi - lo)
            need(np.all(np.abs(got - exp) <= slack), "normalized target is not affine onto [-0.5, 0.5]", got=got.tolist(), expected=exp.tolist(), **det)
            need(abs(got.min() + 0.5) <= slack and abs(got.max() - 0.5) <= slack, "normalized target does not span [-0.5, 0.5]", got=got.tolist(), **det)
        else:
            need(np.all(np.isfinite(got)) and np.all(np.abs(got) <= 0.5) and len(set(got.tolist())) == 1, "constant target is not mapped inside [-0.5, 0.5]", got=got.tolist(), **det)
        back = np.asarray(t.unnormalize_y(t.values), dtype=float)
        need(np.all(np.abs(back - f) <= tol * mag), "un-normalizing does not recover the target", got=back.tolist(), **det)
        need(np.all(np.abs(np.asarray(t.unnormalized_y, dtype=float) - f) <= tol * mag), "un-normalized target differs from the original", **det)
        need(abs(float(t.normalizing_scale) - (hi - lo)) <= tol * mag, "normalizing scale is not the range of the target", got=float(t.normalizing_scale), **det)
        for z in (-0.5, -0.25, 0.0, 0.5, 0.75, -3.0, -40.0, 50.0, 1e4):
            e = lo + (z + 0.5) * (hi - lo)
            need(abs(float(t.unnormalize_y(z)) - e) <= 8 * tol * mag * max(1.0, abs(z)), "un-normalization is not the inverse map", at=z, got=float(t.unnormalize_y(z)), expected=e, **det)
        need(abs(float(np.sum(got)) - float(t.summed_y())) <= tol * 10, "target sum is not that of the normalized target", **det)
        cov.executions += 1
        cov.transitions += 1


def run_long(item):
    """Many rows: outliers at either end, one row unlike the others, ties, a slow drift."""
    cov = Coverage()
    n = item["n"]
    X = np.arange(float(n)).reshape(-1, 1)
    base = np.array([((i * 37) % 101) / 7.0 for i in range(n)])
    one = np.zeros(n)
    one[n // 2] = 1.0
    low = base.copy()
    low[0], low[-1] = -1e4, 2e3
    for y in (base, low, one, 1.0 - one, low[::-1].copy(), 1e6 + np.arange(n) * 1e-3, np.where(np.arange(n) % 2, 3, -3).astype(np.int8), low.astype(np.float32)):
        check_norm(X, y, cov)
        cov.states += 1
    return cov


def run_affine(item):
    cov = Coverage()
    X = ref.matrix(item["cols"], 1)
    y = np.array(item["y"])
    a, b = item["a"], item["b"]
    G = ref.grid(X, cap=40)

    for tape in item["tapes"]:
        def one(ch):
            first = None
            for yy in (y, a * y + b):
                est = common.fresh(n_trees=2, n_samples=item["sweeps"], store_in_sample_predictions=True)
                if first is None:
                    with common.Tape(tape, ch):
                        est.fit(X, yy)
                    used = list(ch.choices)
                else:
                    it = iter(used)
                    us = (0.02, 0.6, 0.98)
                    c = common.Tape(tape)
                    c._u = lambda: us[next(it, 0)]
                    with c:
                        est.fit(X, yy)
                    need(next(it, None) is None, "another number of draws for a rescaled target", data=X.tolist(), y=yy.tolist())
                res = (common.states_of(est), est.predict(G), est.predict(), float(est.sigma.current_unnormalized_value()))
                if first is None:
                    first = res
            d = dict(data=X.tolist(), y=y.tolist(), a=a, b=b, choices=ch.choices)
            for (s1, g1), (s2, g2) in zip(first[0], res[0]):
                need([t for t, _ in s1] == [t for t, _ in s2], "rescaling the target changed the trees", first=[t for t, _ in s1], second=[t for t, _ in s2], **d)
                need(abs(g1 - g2) <= 1e-6 * g1, "rescaling the target changed the normalized noise level", **d)
                for (_, v1), (_, v2) in zip(s1, s2):
                    need(all(abs(v1[p] - v2[p]) <= 1e-6 for p in v1), "rescaling the target changed the normalized leaf values", **d)
            tol = 1e-6 * (abs(b) + abs(a) * (1 + np.abs(y).max()))
            for j, what in ((1, "predictions"), (2, "training predictions")):
                need(np.all(np.abs(a * first[j] + b - res[j]) <= tol), "%s do not follow a*y+b" % what, got=res[j].tolist(), expected=(a * first[j] + b).tolist(), **d)
            need(abs(first[3] * a - res[3]) <= 1e-6 * abs(res[3]), "noise level on the original scale does not scale with the target", got=res[3], expected=first[3] * a, **d)
            return True
        for ch, _ in explore(one, max_deviations=item["dev"]):
            cov.states += 1
            cov.executions += 2
            cov.transitions += len(ch.choices)
    cov.sample({"data": X.tolist(), "a": a, "b": b})
    return cov

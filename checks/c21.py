"""C21: permutation importance."""
import itertools
import math

import numpy as np
import pandas as pd

from bartpy.diagnostics.features import null_feature_split_proportions_distribution
from bartpy.features.featureimportance import feature_importance, null_rmse_distribution, original_model_rmse
from bartpy.sklearnmodel import SklearnModel

from mc import real, ref
from mc.backends import isolated
from mc.core import Coverage, explore, need
from mc.rng import Controller
from checks import big

TRAINED, SCORED = [], []

X = {3: np.array([[10.0, 0.0, 5.0], [20.0, 1.0, 6.0], [30.0, 2.0, 7.0]]),
     4: np.array([[10.0, 0.0, 5.0], [20.0, 1.0, 6.0], [30.0, 2.0, 7.0], [40.0, 3.0, 8.0]]),
     5: np.array([[10.0, 0.0, 5.0], [20.0, 1.0, 6.0], [30.0, 2.0, 7.0], [40.0, 3.0, 8.0], [50.0, 4.0, 9.0]])}
X[12] = np.array([[10.0 * (i + 1), float(i), 5.0 + i] for i in range(12)])
Y = {3: np.array([1.0, 4.0, 9.0]), 4: np.array([1.0, 4.0, 9.0, 25.0]), 5: np.array([1.0, 4.0, 9.0, 25.0, 49.0])}
X[150] = np.array([[10.0 * (i + 1), float(i), 5.0 + i] for i in range(150)])
Y[150] = np.array([((i * 7) % 150) ** 2 / 50.0 + 1.0 for i in range(150)])
X[1500] = np.array([[10.0 * (i + 1), float(i), 5.0 + i] for i in range(1500)])
Y[1500] = np.array([((i * 7) % 1500) ** 2 / 5000.0 + 1.0 for i in range(1500)])
Y[12] = np.array([((i * 7) % 12) ** 2 + 1.0 for i in range(12)])


class Tree:
    """Records the training data of each chain; in the split proportion check it also splits, on a variable that depends on the target."""

    def __init__(self, split=False):
        self.split = split

    def step(self, model, tree):
        if "_mc_seen" not in model.__dict__:
            model.__dict__["_mc_seen"] = True
            TRAINED.append((np.array(model.data.X.values, dtype=float), np.array(model.data.y.unnormalized_y, dtype=float)))
            if self.split:
                y = np.asarray(model.data.y.unnormalized_y, dtype=float)
                real.do(tree, ("grow", (), variable(y), float(np.min(np.asarray(model.data.X.values)[:, variable(y)]))))
        return None


def variable(y):
    """A variable depending on the order of the target."""
    return 0 if y[0] < y[1] else 1 if y[1] < y[2] else 2


class Leaf:
    """Leaf values depend on the training data, so that every model is recognized by its predictions."""

    def step(self, model, node):
        node.set_value(level(np.asarray(model.data.X.values, dtype=float), np.asarray(model.data.y.unnormalized_y, dtype=float)))


def level(A, y):
    return 0.001 * ((A[:, 0] * y).sum() + 3 * (A[:, 1] * y).sum() + 7 * (A[:, 2] * y).sum() + 11 * (A[:, 1] * A[:, 0]).sum()) % 3.0


def pred(A, y):
    """On the original scale."""
    return (level(A, y) + 0.5) * (y.max() - y.min()) + y.min()


class Sig:
    def step(self, model, sigma):
        pass


class Recording(SklearnModel):
    def predict(self, X=None):
        out = super().predict(X)
        if X is not None:
            SCORED.append((np.array(X, dtype=float), np.array(out, dtype=float)))
        return out


def make(chains=1, how="sequential", split=False, cls=Recording, fitted=False, store=False):
    est = cls(store_in_sample_predictions=store, n_trees=1, n_chains=chains, n_samples=2, n_burn=0, thin=1.0, n_jobs=1 if how == "sequential" else 2, tree_sampler=Tree(split))
    est.schedule.leaf_sampler, est.schedule.sigma_sampler = Leaf(), Sig()
    if fitted:
        est.fit(X[5][:, ::-1].copy(), Y[5][::-1].copy())
    return est


def items(tier):
    q = tier == "quick"
    out = []
    for how in ("sequential", "isolated"):
        for frame in (False, True):
            for v in range(3):
                out.append({"kind": "null", "n": 3, "folds": 3, "perms": 1, "var": v, "seeds": 4, "how": how, "frame": frame, "dev": None})
                out.append({"kind": "null", "n": 4, "folds": 2, "perms": 1, "var": v, "seeds": 6, "how": how, "frame": frame, "dev": None if not q else 3})
                out.append({"kind": "null", "n": 4, "folds": 2, "perms": 2, "var": v, "seeds": 4, "how": how, "frame": frame, "dev": 2 if q else 3})
                if not q:
                    out.append({"kind": "null", "n": 5, "folds": 3, "perms": 2, "var": v, "seeds": 8, "how": how, "frame": frame, "dev": 2})
            for n, folds in ((3, 2), (3, 3), (4, 2), (4, 3), (4, 4), (5, 2), (5, 3)):
                out.append({"kind": "base", "n": n, "folds": folds, "seeds": 6 if q else 30, "how": how, "frame": frame})
            for folds, perms in ((2, 1), (5, 3), (12, 2)):
                out.append({"kind": "null", "n": 12, "folds": folds, "perms": perms, "var": folds % 3, "seeds": 2, "how": how, "frame": frame, "dev": 1 if folds == 2 else 0})
                out.append({"kind": "base", "n": 12, "folds": folds, "seeds": 3, "how": how, "frame": frame})
            out.append({"kind": "null", "n": 150, "folds": 3, "perms": 4, "var": 2, "seeds": 1, "how": how, "frame": frame, "dev": 0})
            out.append({"kind": "base", "n": 150, "folds": 4, "seeds": 2, "how": how, "frame": frame})
            out.append({"kind": "null", "n": 1500, "folds": 3, "perms": 2, "var": 1, "seeds": 1, "how": how, "frame": frame, "dev": 0})
            out.append({"kind": "base", "n": 1500, "folds": 3, "seeds": 1, "how": how, "frame": frame})
            out.append({"kind": "props", "n": 1500, "perms": 2, "how": how, "frame": frame, "dev": 0})
            out.append({"kind": "props", "n": 3, "perms": 1, "how": how, "frame": frame})
            out.append({"kind": "props", "n": 3, "perms": 2, "how": how, "frame": frame})
            out.append({"kind": "props", "n": 4, "perms": 1, "how": how, "frame": frame})
            out.append({"kind": "props", "n": 4, "perms": 31, "how": how, "frame": frame, "dev": 0})
        out.append({"kind": "both", "how": how})
    for it in out:
        if q and it["how"] == "isolated" and "seeds" in it:
            it["seeds"] = 2
    return out


def bounds(tier):
    return {"rows": "3-4 (thorough: 5); 12 with 2, 5 and 12 folds; 150 with 3 and 4; 1500 with 3; the given model fitted before or not", "folds": "2 to n", "permutations": "1-2, every permutation of the column enumerated (with two permutations: all that differ from the identity in at most %d choices)" % (2 if tier == "quick" else 3),
            "fold assignments": "those of the first seeds of numpy's generator", "columns": "each of 3", "inputs": ["array", "frame"], "execution": ["sequential", "isolated as in worker processes"]}


def run(item):
    return {"null": run_null, "base": run_base, "props": run_props, "both": run_both}[item["kind"]](item)


class Call:
    """One call under control: what was trained, what was scored, the result."""

    def __init__(self, ch, seed, how, f, lcg=False):
        del TRAINED[:], SCORED[:]
        np.random.seed(seed)
        r = big.lcg(seed + 5)
        with Controller(pick=(ch.pick if ch is not None else None) if not lcg else lambda k, w=None, what="": r(k)):
            if how == "isolated":
                with isolated():
                    self.out = f()
            else:
                self.out = f()
        self.trained, self.scored = list(TRAINED), list(SCORED)


def ids(A, var):
    """Original rows, recognized by a column that was not to be permuted (all of them must agree)."""
    cols = [j for j in range(3) if j != var]
    out = []
    for row in A:
        r = [int(row[0] / 10 - 1), int(row[1]), int(row[2] - 5)]
        need(len({r[j] for j in cols}) == 1, "a column other than the chosen one was permuted", row=row.tolist(), chosen=var)
        out.append(r[cols[0]])
    return out


def check_rmses(call, n, folds, per_fold, var, chains, **d):
    """var None: nothing is permuted."""
    need(len(call.out) == folds * per_fold, "not one error per fold and permutation", got=len(call.out), expected=folds * per_fold, **d)
    need(len(call.trained) == folds * per_fold * chains, "not one model per fold and permutation", got=len(call.trained), **d)
    need(len(call.scored) == folds * per_fold, "not one scoring per model", got=len(call.scored), **d)
    y = Y[n]
    levels = {}
    for A, t in call.trained:
        rows = ids(A, -1 if var is None else var)
        need(len(set(rows)) == len(rows), "a training row is repeated", rows=rows, **d)
        need(np.allclose(t, y[rows], rtol=1e-12, atol=1e-12), "training rows lost their targets", rows=rows, target=t.tolist(), **d)
        held = tuple(i for i in range(n) if i not in rows)
        levels.setdefault(round(pred(A, t), 9), []).append((held, A))
    seen, rm = {}, []
    for Q, p in call.scored:
        rows = ids(Q, -1 if var is None else var)
        key = round(float(p[0]), 9)
        match = [m for k, ms in levels.items() if abs(k - key) < 1e-6 for m in ms]
        need(match, "scored a model that was not trained here", prediction=p.tolist(), **d)
        need(any(tuple(sorted(rows)) == h for h, _ in match), "a model was scored on other rows than the held-out rows of its fold",
             scored=rows, held_out=[h for h, _ in match], **d)
        if var is not None:
            ok = False
            for h, A in match:
                if h != tuple(sorted(rows)):
                    continue
                whole = sorted(list(A[:, var]) + list(Q[:, var])) == sorted(X[n][:, var])
                inner = sorted(A[:, var]) == sorted(X[n][[i for i in range(n) if i not in h], var])
                ok = ok or whole or inner
            need(ok, "the chosen column is not a permutation of its values", train=match[0][1][:, var].tolist(), scored_rows=Q[:, var].tolist(), **d)
        seen[tuple(sorted(rows))] = seen.get(tuple(sorted(rows)), 0) + 1
        rm.append(math.sqrt(sum((y[r] - v) ** 2 for r, v in zip(rows, p))))
    need(all(v == per_fold for v in seen.values()) and sorted(i for h in seen for i in h) == list(range(n)), "the held-out rows are not the folds of the data", got={str(k): v for k, v in seen.items()}, **d)
    need(np.allclose(sorted(rm), sorted(float(x) for x in call.out), rtol=1e-9, atol=1e-9), "an error is not that of the model on the held-out rows with their own targets",
         got=[float(x) for x in call.out], expected=rm, **d)


def snapshot(est):
    return (id(est.model_samples), id(est.data), id(est.model), repr(est.get_params()), id(est.schedule), id(est.tree_sampler))


def give(n, frame):
    return (pd.DataFrame(X[n], columns=["a", "b", "c"]) if frame else X[n].copy()), Y[n].copy()


def untouched(A, y, n, est, before, **d):
    need(np.array_equal(np.asarray(A), X[n]) and np.array_equal(y, Y[n]), "the caller's data was changed", **d)
    need(snapshot(est) == before, "the caller's model was changed", **d)


def run_null(item):
    cov = Coverage()
    n, var = item["n"], item["var"]
    placed = set()
    for seed in range(item["seeds"]):
        chains = 1 + seed % 2
        est = make(chains, item["how"], fitted=seed % 4 > 1 or n == 12, store=bool((seed + item["folds"]) % 2))
        before = snapshot(est)
        A, y = give(n, item["frame"])
        # on many rows: one scripted permutation after the other instead of all of them
        f = lambda: null_rmse_distribution(est, A, y, var, item["folds"], item["perms"])
        for ch, call in explore(lambda ch: Call(ch, seed, item["how"], f, n >= 12 and item["dev"] == 0), max_deviations=item["dev"]):
            d = dict(n_rows=n, k_folds=item["folds"], permutations=item["perms"], column=var, seed=seed, choices=ch.choices, n_chains=chains, frame=item["frame"], run=item["how"])
            check_rmses(call, n, item["folds"], item["perms"], var, chains, **d)
            untouched(A, y, n, est, before, **d)
            for T, _ in call.trained:
                placed |= {(r, T[i, var]) for i, r in enumerate(ids(T, var))}
            cov.executions += 1
            cov.transitions += len(call.trained)
            cov.outcomes.add(tuple(round(float(v), 6) for v in call.out))
        cov.states += 1
    if item["dev"] is None:
        need(len(placed) == n * n, "the chosen column is not permuted freely", reached=len(placed), expected=n * n, column=var)
    cov.sample({k: item[k] for k in ("n", "folds", "perms", "var", "how")})
    return cov


def run_base(item):
    cov = Coverage()
    n = item["n"]
    for seed in range(item["seeds"]):
        chains = 1 + seed % 2
        est = make(chains, item["how"], fitted=seed % 4 > 1 or n == 12, store=bool((seed + item["folds"]) % 2))
        before = snapshot(est)
        A, y = give(n, item["frame"])
        call = Call(None, seed, item["how"], lambda: original_model_rmse(est, A, y, item["folds"]))
        d = dict(n_rows=n, k_folds=item["folds"], seed=seed, n_chains=chains, frame=item["frame"], run=item["how"])
        check_rmses(call, n, item["folds"], 1, None, chains, **d)
        untouched(A, y, n, est, before, **d)
        cov.states += 1
        cov.executions += 1
        cov.transitions += len(call.trained)
    return cov


def run_props(item):
    cov = Coverage()
    n, perms = item["n"], item["perms"]
    seen = set()
    est = make(2, item["how"], split=True, cls=SklearnModel, fitted=n == 4)
    before = snapshot(est)
    A, y = give(n, item["frame"])
    f = lambda ch: Call(ch, 0, item["how"], lambda: null_feature_split_proportions_distribution(est, A, y, perms), lcg="dev" in item)
    for ch, call in (explore(f) if "dev" not in item else explore(f, max_deviations=0)):
        d = dict(n_rows=n, permutations=perms, choices=ch.choices, frame=item["frame"], run=item["how"])
        need(len(call.trained) == 2 * perms, "not one model per permutation", got=len(call.trained), **d)
        want = []
        for T, t in call.trained:
            need(np.array_equal(T, X[n]), "the covariates were changed", got=T.tolist(), **d)
            need(np.allclose(sorted(t), sorted(Y[n])), "the target is not a permutation of the original", got=t.tolist(), **d)
            seen.add(tuple(round(float(v), 6) for v in t))
        ys = [t for _, t in call.trained][::2]
        out = call.out
        need(sorted(out) == [0, 1, 2] and all(len(out[v]) == perms for v in out), "the distribution has another size", **d)
        want = sorted(tuple(1.0 if variable(t) == v else 0.0 for v in range(3)) for t in ys)
        got = sorted(tuple(float(out[v][j]) for v in range(3)) for j in range(perms))
        need(np.allclose(got, want), "the distribution is not that of the models fitted to permuted targets", got=got, expected=want, **d)
        untouched(A, y, n, est, before, **d)
        cov.executions += 1
        cov.states += 1
        cov.transitions += perms
    need("dev" in item or len(seen) == math.factorial(n), "not every permutation of the target can occur", reached=len(seen), **d)
    return cov


def run_both(item):
    cov = Coverage()
    import matplotlib
    matplotlib.use("Agg")
    from matplotlib import pyplot as plt
    for seed in range(4):
        for var in range(3):
            est = make(1, item["how"], fitted=var == 1, store=bool(seed % 2))
            A, y = give(4, False)
            before = snapshot(est)
            call = Call(None, seed, item["how"], lambda: feature_importance(est, A, y, var, n_k_fold_splits=2, n_permutations=2))
            plt.close("all")
            need(len(call.out[0]) == 2 and len(call.out[1]) == 4, "feature importance does not return baseline and null errors", **dict(column=var))
            k = len(call.trained) - 4
            d = dict(column=var, seed=seed, run=item["how"])
            need(k == 2, "not one model per fold and permutation", got=len(call.trained), **d)

            class Part:
                pass
            a, b = Part(), Part()
            a.out, a.trained, a.scored = call.out[0], call.trained[:2], call.scored[:2]
            b.out, b.trained, b.scored = call.out[1], call.trained[2:], call.scored[2:]
            check_rmses(a, 4, 2, 1, None, 1, **d)
            check_rmses(b, 4, 2, 2, var, 1, **d)
            untouched(A, y, 4, est, before, **d)
            cov.states += 1
            cov.executions += 1
    return cov

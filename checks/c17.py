"""C17: one specification run over many data sets."""
import itertools

import numpy as np
import pandas as pd

from bartpy.runner import run_models

from mc.backends import isolated
from mc.core import Coverage, need
from checks import streams
from checks.c16 import same
from checks import big, common

SETS = [
    (np.array([[0.0, 1.0], [1.0, 0.0], [2.0, 1.0], [3.0, 3.0]]), np.array([3.0, -1.0, 10.0, 2.0])),
    (np.array([[5.0, 2.0], [1.0, 4.0], [2.0, 0.0]]), np.array([100.0, 300.0, 250.0])),
    (np.array([[0.0, 1.0], [1.0, 0.0], [2.0, 1.0], [3.0, 3.0]]), np.array([-1.0, 10.0, 2.0, 3.0])),      # the first with its target permuted
    (np.array([[0.0, 0.0], [1.0, 0.0], [1.0, 5.0], [3.0, 3.0], [4.0, 1.0]]), np.array([1e-3, 2e-3, 0.0, 5e-3, 1e-3])),
    (np.array([[2.0, 2.0], [2.0, 2.0]]), np.array([7.0, 7.0])),
]
SMALL = len(SETS)
SETS.append((big.data("tall")[0][:, :2], big.data("tall")[1]))
SETS.append((np.array([[2.0, 1.0], [7.0, 3.0], [0.0, 3.0], [1.0, 0.0]]), SETS[0][1].copy()))      # other covariates, the target of the first
G = np.array([[0.5, 0.5], [1.0, 1.0], [2.0, 0.0], [5.0, 5.0], [-1.0, 2.0], [3.0, 1.0]])


def items(tier):
    q = tier == "quick"
    out = []
    for k in range(1, 4 if q else 5):
        pool = range(SMALL) if k < 4 else range(4)
        for seq in itertools.product(pool, repeat=k):
            if q and k == 3 and (sum(seq) + seq[0]) % 2:
                continue
            out.append({"seq": list(seq), "chains": [1, 2, 3] if k < 3 or not q else [1 + sum(seq) % 3], "frame": sum(seq) % 4 == 1})
    for seq in ([5], [5, 0], [1, 5, 5], [0, 5, 1, 2], [0, 1, 2, 3, 4, 5, 0, 1, 3, 2, 2, 1]):
        out.append({"seq": seq, "chains": [1, 2, 3] if len(seq) < 4 else [2], "frame": len(seq) == 4})
    for seq in ([0, 6], [6, 0], [0, 2], [0, 0], [0, 6, 2], [6, 1, 2, 0, 6]):
        out.append({"seq": seq, "chains": [1, 2], "frame": False, "same objects": True})
    out.append({"seq": ([0, 1, 2, 3, 4] * 20)[:66 if q else 97], "chains": [1] if q else [1, 3], "frame": False, "brief": True})
    return out


def bounds(tier):
    return {"data sets": "all sequences of 1 to %d out of %d (repeats allowed%s)" % (3 if tier == "quick" else 4, SMALL, "; half of those of 3" if tier == "quick" else ""),
            "larger": "a data set of 130 rows alone and among others; lists of 12 and 66 (97) data sets", "one object": "lists that hold the same covariates or target object several times", "chains": "1 to 3", "specification": "new, fitted before, with predictions stored or not", "execution": ["sequential", "isolated as in worker processes"],
            "then": "each result changed, refitted or asked in turn, the others compared"}


def result(est):
    p = [np.asarray(est.predict(G), dtype=float)]
    p.append(np.asarray(est.predict(), dtype=float) if est.store_in_sample_predictions else np.zeros(0))
    p.append(np.asarray(est.residuals(), dtype=float) if est.store_in_sample_predictions else np.zeros(0))
    return (common.states_of(est), p, [dict(a) for a in est.acceptance_trace], float(est.data.y.normalizing_scale), len(est.extract))


def data_ok(est, X, y):
    return np.array_equal(np.asarray(est.data.X.values), X) and np.allclose(est.data.y.unnormalized_y, y, rtol=1e-12, atol=1e-12) \
        and est.model is not None and np.array_equal(np.asarray(est.model.data.X.values), X)


class Other:
    pass


def spec_state(est):
    return (id(est.model), id(est.data), id(est.sigma), id(est.extract), id(est.model_samples), id(est.schedule), id(est.tree_sampler),
            id(est.schedule.leaf_sampler), id(est.schedule.tree_sampler), id(est.schedule.sigma_sampler), id(est.sampler), id(est.sampler.schedule), id(est.sampler.trace_logger_class), tuple(sorted((k, repr(v)) for k, v in est.get_params().items())))


def run(item):
    cov = Coverage()
    for chains, how, fitted, store in itertools.product(item["chains"], ("sequential", "isolated"), (False, True), (True, False)):
        if item.get("brief") and (fitted or not store):
            continue
        kw = dict(n_chains=chains, store_in_sample_predictions=store, n_jobs=1 if how == "sequential" else 2)
        d = dict(data_sets=item["seq"], chains=chains, run=how, fitted_before=fitted, store=store)
        alone = []
        for i in set(item["seq"]):
            streams.reset()
            e = streams.make(**dict(kw, n_jobs=1))
            if how == "isolated":
                with isolated():
                    e.set_params(n_jobs=2).fit(*SETS[i])
            else:
                e.fit(*SETS[i])
            alone.append((i, result(e)))
        alone = dict(alone)
        spec = streams.make(**kw)
        streams.reset()
        if fitted:
            D = SETS[3] if 3 not in item["seq"] else SETS[0]
            spec.set_params(n_jobs=1).fit(*D)
            spec.set_params(n_jobs=kw["n_jobs"])
            before_result = result(spec)
        before = spec_state(spec)
        streams.reset()
        Xs, ys = [SETS[i][0].copy() for i in item["seq"]], [SETS[i][1].copy() for i in item["seq"]]
        if item.get("same objects"):        # equal covariates and equal targets are one object each
            Xs = [next(b for b in Xs if np.array_equal(a, b)) for a in Xs]
            ys = [next(b for b in ys if np.array_equal(a, b)) for a in ys]
        if item["frame"]:
            Xs = [pd.DataFrame(x) for x in Xs]
        if how == "isolated":
            with isolated():
                out = run_models(spec, Xs, ys)
        else:
            out = run_models(spec, Xs, ys)
        cov.executions += 1
        need(len(out) == len(item["seq"]), "not one result per data set", got=len(out), **d)
        need(len(set(map(id, out))) == len(out) and all(o is not spec for o in out), "results share one model", **d)
        need(spec_state(spec) == before, "the specification was changed", **d)
        if fitted:
            w = same(before_result, result(spec))
            need(w is None, "running models changed what the fitted specification predicts: %s" % w, **d)
        else:
            need(spec.model_samples is None and spec.data is None and spec.model is None, "the specification was fitted", **d)
        for i, X, y in zip(item["seq"], Xs, ys):
            need(np.array_equal(np.asarray(X), SETS[i][0]) and np.array_equal(y, SETS[i][1]), "the caller's data was changed", **d)
        for pos, (i, o) in enumerate(zip(item["seq"], out)):
            r = result(o)
            need(data_ok(o, *SETS[i]), "a result does not hold its own data", position=pos, **d)
            need(r[4] == chains, "a result has another number of chains", got=r[4], position=pos, **d)
            need(len({id(m) for m in o.model_samples}) == len(o.model_samples), "a sample is repeated", position=pos, **d)
            # repeats of one data set continue its stream of chains, so only the first has the draws of a fit of its own
            if item["seq"].index(i) == pos:
                w = same(alone[i], r)
                need(w is None, "a result differs from fitting alone with the same draws: %s" % w, position=pos, **d)
            n_s = len(alone[i][0])
            need(len(r[0]) == n_s, "a result has another number of samples", position=pos, got=len(r[0]), expected=n_s, **d)
            if store:
                got = np.asarray(o.predict(), dtype=float)
                need(np.allclose(got, o.predict(SETS[i][0]), rtol=1e-9, atol=1e-9 * (1 + abs(SETS[i][1]).max())), "training prediction of a result is not that of its own samples", position=pos, **d)
            cov.states += 1
            cov.outcomes.add((i, chains, round(float(np.sum(r[1][0])), 9)))
        # independence: change each result in turn
        results = [result(o) for o in out]
        for pos, o in enumerate(out):
            if item.get("brief") and 3 < pos < len(out) - 3:
                continue
            for m in o.model_samples:
                for t in m.trees:
                    for leaf in t.leaf_nodes:
                        leaf.set_value(50.0)
            o.data.y.values[:] = 9.0
            o.set_params(n_trees=1, n_samples=1, n_chains=1, n_jobs=1)
            o.fit(np.array([[0.0, 0.0], [1.0, 1.0]]), np.array([0.0, 1.0]))
            for other in range(pos + 1, len(out)):
                w = same(results[other], result(out[other]))
                need(w is None, "using one result changed another: %s" % w, changed=pos, other=other, **d)
            need(spec_state(spec) == before, "using a result changed the specification", changed=pos, **d)
            o.set_params(tree_sampler=spec.tree_sampler)
            o.schedule.leaf_sampler = o.schedule.sigma_sampler = o.sampler.trace_logger_class = o.sampler.schedule = None
            o.set_params(tree_sampler=Other())
            need(spec_state(spec) == before, "changing a result's parameters changed the specification", changed=pos, **d)
            cov.transitions += 1
    cov.sample({"data sets": item["seq"], "chains": item["chains"]})
    return cov

"""C20: split proportions, thresholds, selectors."""
import copy
import itertools
from fractions import Fraction

import numpy as np
import pandas as pd

from bartpy.data import Data
from bartpy.diagnostics.features import (feature_split_proportions, global_thresholds, is_kept, kept_features, local_thresholds,
                                         null_feature_split_proportions_distribution, partition_into_passed_and_failed_features)
from bartpy.features.featureselection import SelectNullDistributionThreshold, SelectSplitProportionThreshold
from bartpy.model import Model, deep_copy_model
from bartpy.samplers.oblivioustrees.proposer import UniformMutationProposer
from bartpy.samplers.oblivioustrees.treemutation import UnconstrainedTreeMutationSampler
from bartpy.sigma import Sigma
from bartpy.sklearnmodel import SklearnModel
from bartpy.tree import deep_copy_tree

from mc import real, ref
from mc.backends import isolated
from mc.core import Coverage, explore, need
from mc.rng import Controller
from checks import big, common, streams
from checks.c05 import Fixed
from checks.c22 import Decided, form

X3 = np.array([[0.0, 0.0, 1.0], [1.0, 0.0, 0.0], [2.0, 1.0, 1.0], [3.0, 1.0, 0.0]])
Y3 = np.array([1.0, 2.0, 4.0, 3.0])
PERCENTILES = [0.0, 0.05, 0.2, 0.25, 0.5, 0.75, 0.8, 0.9, 0.95, 1.0]
FINE = PERCENTILES + [0.29, 0.58, 0.975, 1 / 3, 0.0055, 0.9999]


def menu():
    """A tree for every multiset of splitting variables up to 3 splits (and a few deeper ones)."""
    order, hist = ref.all_trees(X3)
    out = {}
    for t in order:
        key = tuple(sorted(s[0] for _, s, _, _ in ref.walk(t, X3) if s is not None))
        out.setdefault((key, max(len(p) for p, _, _, _ in ref.walk(t, X3))), hist[t])
    return [out[k] for k in sorted(out, key=lambda k: (len(k[0]), k))]


MENU = menu()


XW, YW = big.data("wide")
KW = XW.shape[1]


def wide_menu():
    """Each splittable column alone, and histories that use several columns, one of them many times."""
    out = [[]]
    first = [m[:4] for m in ref.moves(None, XW)]
    for v in range(KW):
        c = [m for m in first if m[2] == v]
        if c:
            out.append([c[len(c) // 2]])
    for seed in range(1, 12):
        out.append([m for m, _ in big.history(XW, "mixed", 2 + seed % 5, seed) if m[0] == "grow"] if seed % 2 else [m for m, _ in big.history(XW, "bushy", 1 + seed % 4, seed)])
    return [h for h in out if all(m[0] == "grow" for m in h) and valid(h)]


def valid(h):
    t = None
    for m in h:
        if not any(x[:4] == m for x in ref.moves(t, XW)):
            return False
        t = ref.apply(t, m)
    return True


MENUW = wide_menu()


def counts(hist, p=3):
    c = [0] * p
    for m in hist:
        c[m[2]] += 1
    return c


def items(tier):
    q = tier == "quick"
    k = len(MENU)
    out = [{"kind": "proportions", "first": i, "trees": 2 if q else 3} for i in range(k)]
    vals = [0.0, 0.25, 0.5, 1.0]
    out += [{"kind": "thresholds", "vars": p, "perms": r} for p in (1, 2, 3) for r in (1, 2, 3) if p * r <= (6 if q else 7)]
    out += [{"kind": "thresholds", "vars": p, "perms": r, "fixed": 12} for p in (1, 2, 5, 13) for r in (4, 7, 10, 25, 30, 101, 1000)]
    out += [{"kind": "kept", "vars": p} for p in (1, 2, 3)]
    for cls in ("proportion", "local", "global"):
        for k in range(12 if q else 48):
            out.append({"kind": "selector", "cls": cls, "script": k})
        for k in range(4 if q else 16):
            out.append({"kind": "selector", "cls": cls, "script": k, "wide": True})
    out += [{"kind": "wide", "part": k} for k in range(4)]
    out += [{"kind": "refits"}]
    out += [{"kind": "oblivious", "cols": c, "shift": s, "depth": 3} for c, s in common.datasets(tier, [(2, 1, 1), (3, 1, 1), (2, 2, 1), (3, 2, 7 if q else 2)])]
    out += [{"kind": "oblivious", "cols": c, "shift": s, "depth": 4, "dev": 2 if q else 3} for c, s in common.datasets(tier, [(4, 2, 200 if q else 40), (5, 2, 9001 if q else 1501)])]
    out += [{"kind": "deep", "case": c} for c in big.cases("quick") if c[0] != "huge"]
    out += [{"kind": "many", "samples": n, "trees": t} for n, t in ((130, 3), (1100, 1), (260, 2), (2, 130), (1, 300))]
    return out


def bounds(tier):
    return {"trees": "%d shapes on 4 rows x 3 columns, one for every multiset of splitting variables and depth" % len(MENU),
            "samples": "all ways to put up to %d of them into samples and chains" % (2 if tier == "quick" else 3),
            "thresholds": "all null distributions over 4 levels for 1-3 variables x 1-3 permutations; percentiles %s; fixed tables of 1-13 variables x 4-1000 permutations" % FINE,
            "kept": "all proportions and thresholds over 3 levels, every key order", "selectors": "%d scripted fits, every percentile, arrays and frames" % (12 if tier == "quick" else 48),
            "oblivious": "every path of 3 updates of small oblivious trees, some of 4", "deep": big.describe("quick"), "many variables": "7 rows x 13 columns (two constant), %d trees singly, in pairs and all together; %d scripted selector fits" % (len(MENUW), 12 if tier == "quick" else 48)}


def run(item):
    return {"proportions": run_proportions, "thresholds": run_thresholds, "kept": run_kept, "selector": run_selector, "wide": run_wide, "deep": run_deep, "many": run_many, "refits": run_refits, "oblivious": run_oblivious}[item["kind"]](item)


class Holder:
    def __init__(self, samples):
        self.model_samples = samples


def sample(hists, X=X3, Y=Y3):
    m = Model(Data(X.copy(), Y.copy()), Sigma(1.0, 1.0, 1.0), trees=[real.build(X, Y, h) for h in hists], initializer=None)
    return deep_copy_model(m)


def expected(total, columns=None):
    n = sum(total)
    if columns is None:
        columns = [v for v in range(len(total)) if total[v]]
    return {v: (Fraction(total[v], n) if v < len(total) and n else 0) for v in columns}


def same(got, want):
    return {int(k) for k in got} == set(want) and all(abs(float(got[k]) - float(want[int(k)])) < 1e-12 for k in got)


def check_props(model, total, cov, **d):
    got = feature_split_proportions(model)
    need(same(got, expected(total)), "split proportions are wrong", got=dict(got), expected={k: str(v) for k, v in expected(total).items()}, counts=total, **d)
    every = list(range(len(total)))
    for cols in (every, [2, 0], [1], every + [len(every)], every[::-1], every[1::2]):
        got = feature_split_proportions(model, cols)
        need(same(got, expected(total, cols)) and [int(k) for k in got] == cols, "split proportions for given columns are wrong", columns=cols, got=dict(got), counts=total, **d)
    if sum(total):
        need(abs(sum(feature_split_proportions(model, every).values()) - 1) < 1e-12, "split proportions do not sum to one", **d)
    cov.states += 1


def run_refits(item):
    """One estimator (or plain holder of samples), asked again and again while its samples are replaced, and copied after being asked."""
    cov = Coverage()
    est = SklearnModel(n_trees=1, n_chains=2, n_jobs=1)
    hold = Holder([])
    for step, i in enumerate(list(range(len(MENU))) + list(range(len(MENU)))[::-1]):
        h = MENU[i]
        g = MENU[(i * 5 + step) % len(MENU)]
        total = (np.array(counts(h)) + counts(g)).tolist()
        d = dict(step=step, trees=[list(map(str, x)) for x in (h, g)])
        chains = [{"model": [sample([x])], "acceptance": [], "in_sample_predictions": []} for x in (h, g)]
        new = est.from_extract(chains, X3, Y3)
        for m in (new, copy.deepcopy(new)):
            check_props(m, total, cov, **d)
            # the same estimator fitted anew
            for j in (0, 1, 5):
                m.set_params(n_trees=1 + j % 2, n_samples=1 + j // 5, n_burn=0, thin=1.0, tree_sampler=Script(step + j, False))
                m.fit(X3, Y3)
                check_props(m, recount(m.model_samples), cov, refit=j, **d)
        hold.model_samples = [sample([h]), sample([g])]
        check_props(hold, total, cov, **d)
        hold.model_samples[1] = sample([h])
        check_props(hold, (2 * np.array(counts(h))).tolist(), cov, **d)
        est = new
        cov.executions += 4
        cov.transitions += 4
    return cov


def run_oblivious(item):
    """Trees of the oblivious sampler: the levels below a leaf that cannot be split are not splits."""
    cov = Coverage()
    X = ref.matrix(item["cols"], item["shift"])
    y = ref.targets(len(X))
    p = X.shape[1]

    def path(ch):
        m = Model(Data(X.copy(), y.copy()), Sigma(1.0, 1.0, 1.0), n_trees=1, initializer=None)
        tree = m.trees[0]
        out = []
        for step in range(item["depth"]):
            with Controller(pick=ch.pick, retry=True):
                if not UnconstrainedTreeMutationSampler(UniformMutationProposer(0.5, 0.5), Decided(True), Fixed(0.5)).step(m, tree):
                    break
            total, splits = [0] * p, 0
            f = form(tree, X)
            for path_, (nd, rows) in f.items():
                if path_ + (0,) in f and len(f[path_ + (0,)][1]) < len(rows):
                    total[nd.most_recent_split_condition().splitting_variable] += 1
                    splits += 1
            out.append((tuple(total), len(f)))
            every = list(range(p))
            for k in (1, 2):
                h = Holder([deep_copy_model(m)] * k)
                for cols in (every, None):
                    got = feature_split_proportions(h, cols) if cols else feature_split_proportions(h)
                    need(same(got, expected(total, cols)), "split proportions of an oblivious tree are wrong", got={int(a): b for a, b in got.items()}, counts=total, data=X.tolist(), step=step)
            cov.transitions += 1
        return tuple(out)
    for ch, out in explore(path, limit=60, max_deviations=item.get("dev")):
        cov.executions += 1
        cov.truncated += bool(ch.truncated)
        cov.outcomes.add(out)
        cov.states += len(out)
    return cov


def run_many(item):
    """Long runs: every stored sample counts."""
    cov = Coverage()
    total, samples = [0, 0, 0], []
    for i in range(item["samples"]):
        hists = [MENU[(i * 5 + j * 7) % len(MENU)] for j in range(item["trees"])]
        samples.append(sample(hists))
        for h in hists:
            total = [a + b for a, b in zip(total, counts(h))]
        if i + 1 in (1, 2, 50, 51, 100, 101, item["samples"]):
            check_props(Holder(list(samples)), total, cov, samples=i + 1)
            # the first sample is the only one that splits at all
            check_props(Holder([sample([MENU[-1]])] + [sample([[]]) for _ in range(i)]), counts(MENU[-1]), cov, samples=i + 1)
            cov.executions += 2
    cov.transitions += item["samples"]
    return cov


def run_deep(item):
    """Deep trees, the whole way."""
    cov = Coverage()
    name, style, steps = item["case"]
    A, y = big.data(name)
    tree = real.new_tree(A, y)
    for j, (m, t) in enumerate(big.history(A, style, steps)):
        real.do(tree, m)
        total = [0] * A.shape[1]
        for _, sub, _, _ in ref.walk(t, A):
            if sub is not None:
                total[sub[0]] += 1
        mm = Model(Data(A.copy(), y.copy()), Sigma(1.0, 1.0, 1.0), trees=[deep_copy_tree(tree)], initializer=None)
        got = feature_split_proportions(Holder([mm]))
        need(same(got, expected(total)), "split proportions are wrong", got=dict(got), counts=total, data=name, step=j)
        two = [2 * v for v in total]
        two[0] += 1
        first = [mv for mv in ref.moves(None, A) if mv[2] == 0]
        if first:
            m2 = Model(Data(A.copy(), y.copy()), Sigma(1.0, 1.0, 1.0), trees=[deep_copy_tree(tree), deep_copy_tree(tree), deep_copy_tree(real.build(A, y, [first[0][:4]]))], initializer=None)
            got = feature_split_proportions(Holder([m2]), list(range(len(two))))
            need(same(got, expected(two, list(range(len(two))))), "split proportions are wrong", got=dict(got), counts=two, data=name, step=j)
        cov.states += 1
        cov.executions += 2
        cov.transitions += 1
    return cov


def run_proportions(item):
    cov = Coverage()
    for rest in itertools.combinations_with_replacement(range(len(MENU)), item["trees"] - 1):
        hists = [MENU[item["first"]]] + [MENU[i] for i in rest]
        total = np.sum([counts(h) for h in hists], axis=0).tolist()
        d = dict(trees=[list(map(str, h)) for h in hists])
        # one sample with all trees; one sample per tree; samples in several chains
        check_props(Holder([sample(hists)]), total, cov, **d)
        check_props(Holder([sample([h]) for h in hists]), total, cov, **d)
        base = SklearnModel(n_trees=1, n_chains=2, n_jobs=1)
        chains = [{"model": [sample([h])], "acceptance": [], "in_sample_predictions": []} for h in hists]
        chains.append({"model": [sample([hists[0]]), sample([hists[-1]])], "acceptance": [], "in_sample_predictions": []})
        t2 = (np.array(total) + counts(hists[0]) + counts(hists[-1])).tolist()
        check_props(base.from_extract(chains, X3, Y3), t2, cov, **d)
        # a tree that was grown and pruned on its way
        t = real.build(X3, Y3, hists[0])
        c = real.canon(t)
        for m in ref.moves(c, X3)[:3]:
            t2_ = real.build(X3, Y3, hists[0])
            real.do(t2_, m[:4])
            c2 = ref.apply(c, m)
            cnt = [0, 0, 0]
            for _, s, _, _ in ref.walk(c2, X3):
                if s is not None:
                    cnt[s[0]] += 1
            mm = Model(Data(X3.copy(), Y3.copy()), Sigma(1.0, 1.0, 1.0), trees=[deep_copy_tree(t2_)], initializer=None)
            check_props(Holder([mm]), cnt, cov, move=m, **d)
            cov.transitions += 1
        cov.executions += 3
    cov.sample({"splits": [counts(MENU[item["first"]])]})
    return cov


def run_wide(item):
    """More variables than digits: names in numeric order, every column counted where it belongs."""
    cov = Coverage()
    for i, h in enumerate(MENUW):
        if i % 4 != item["part"]:
            continue
        check_props(Holder([sample([h], XW, YW)]), counts(h, KW), cov, tree=list(map(str, h)))
        for g in MENUW:
            total = (np.array(counts(h, KW)) + counts(g, KW)).tolist()
            check_props(Holder([sample([h, g], XW, YW)]), total, cov, trees=[list(map(str, x)) for x in (h, g)])
            cov.executions += 1
    total = np.sum([counts(h, KW) for h in MENUW], axis=0)
    check_props(Holder([sample(MENUW, XW, YW)]), total.tolist(), cov)
    check_props(Holder([sample([h], XW, YW) for h in MENUW]), total.tolist(), cov)
    # thresholds and masks
    r = big.lcg(item["part"])
    for trial in range(12):
        null = {v: [r(5) / 4 for _ in range(1 + trial % 6)] for v in range(KW)}
        n = len(null[0])
        for pc in FINE:
            loc, glo = local_thresholds(null, pc), global_thresholds(null, pc)
            g = quantile([max(null[v][j] for v in range(KW)) for j in range(n)], pc)
            d = dict(null=null, percentile=pc)
            need(sorted(loc) == list(range(KW)) and sorted(glo) == list(range(KW)), "thresholds do not cover every variable", **d)
            for v in range(KW):
                need(abs(loc[v] - quantile(null[v], pc)) < 1e-12, "local threshold is not the quantile of the variable's null distribution", variable=v, got=loc[v], **d)
                need(abs(glo[v] - g) < 1e-12, "global threshold is not the quantile of the largest proportions", variable=v, got=glo[v], expected=g, **d)
            cov.states += 1
        P, T = {v: r(5) / 8 for v in range(KW)}, {v: r(5) / 8 for v in range(KW)}
        want = [P[v] > T[v] for v in range(KW)]
        for order in (list(range(KW)), list(range(KW))[::-1], sorted(range(KW), key=str)):
            Q = {v: P[v] for v in order}
            d = dict(proportions=Q, thresholds=T)
            need([bool(x) for x in is_kept(Q, T)] == want, "kept mask is wrong", got=list(is_kept(Q, T)), expected=want, **d)
            need(sorted(kept_features(Q, T)) == [v for v in range(KW) if want[v]], "kept features are wrong", got=kept_features(Q, T), **d)
            a, b = partition_into_passed_and_failed_features(Q, T)
            need(a == {v: P[v] for v in range(KW) if want[v]} and b == {v: P[v] for v in range(KW) if not want[v]}, "passed and failed features are wrong", **d)
            cov.states += 1
    return cov


def quantile(values, q):
    """Linear interpolation between order statistics."""
    v = sorted(values)
    pos = q * (len(v) - 1)
    i = min(int(pos), len(v) - 1)
    j = min(i + 1, len(v) - 1)
    return v[i] + (pos - i) * (v[j] - v[i])


def fixed(n, k):
    """Fixed tables of n proportions: increasing, decreasing, one value, mixed."""
    yield [(i + 1) / (n + 1) for i in range(n)]
    yield [(n - i) / (n + 1) for i in range(n)]
    yield [0.25] * n
    for s in range(k):
        yield [((i * (2 * s + 7919) + s * s) % (97 + s)) / (97.0 + s) for i in range(n)]


def run_thresholds(item):
    cov = Coverage()
    p, r = item["vars"], item["perms"]
    flats = itertools.product([0.0, 0.25, 0.5, 1.0], repeat=p * r) if not item.get("fixed") else fixed(p * r, item["fixed"])
    for flat in flats:
        null = {v: list(flat[v * r:(v + 1) * r]) for v in range(p)}
        keep = copy.deepcopy(null)
        for pc in FINE:
            d = dict(null=null, percentile=pc)
            loc, glo = local_thresholds(null, pc), global_thresholds(null, pc)
            need(sorted(loc) == list(range(p)) and sorted(glo) == list(range(p)), "thresholds do not cover every variable", **d)
            g = quantile([max(null[v][j] for v in range(p)) for j in range(r)], pc)
            for v in range(p):
                need(abs(loc[v] - quantile(null[v], pc)) < 1e-12, "local threshold is not the quantile of the variable's null distribution", variable=v,
                     got=loc[v], expected=quantile(null[v], pc), **d)
                need(abs(glo[v] - g) < 1e-12, "global threshold is not the quantile of the largest proportions", variable=v, got=glo[v], expected=g, **d)
            cov.states += 1
        need(null == keep, "the null distribution was changed", **dict(null=null))
        cov.executions += 1
    return cov


def run_kept(item):
    cov = Coverage()
    p = item["vars"]
    lv = [0.0, 0.3, 0.7] if p == 3 else [0.0, 5e-324, 1e-12, 0.3, 0.3 + 1e-12, float(np.nextafter(0.3, 1)), 0.7, 1 - 1e-13, 1.0]
    for props in itertools.product(lv, repeat=p):
        for thr in itertools.product(lv, repeat=p):
            for order in itertools.permutations(range(p)):
                P, T = {v: props[v] for v in order}, {v: thr[v] for v in range(p)}
                want = [props[v] > thr[v] for v in range(p)]
                d = dict(proportions=P, thresholds=T)
                need([bool(x) for x in is_kept(P, T)] == want, "kept mask is wrong", got=list(is_kept(P, T)), expected=want, **d)
                need(sorted(kept_features(P, T)) == [v for v in range(p) if want[v]], "kept features are wrong", got=kept_features(P, T), **d)
                a, b = partition_into_passed_and_failed_features(P, T)
                need(a == {v: props[v] for v in range(p) if want[v]} and b == {v: props[v] for v in range(p) if not want[v]}, "passed and failed features are wrong", **d)
                cov.states += 1
    cov.executions += cov.states
    return cov


class Script:
    """Grows a tree to one of the menu, decided by the data, the sweep and a script number."""

    def __init__(self, k, wide=False):
        self.k, self.sweep, self.wide = k, 0, wide

    def step(self, model, tree):
        y = np.asarray(model.data.y.unnormalized_y, dtype=float)
        h = int(sum((i + 1) * v for i, v in enumerate(y)) * 16) + 7 * self.k
        first = tree is model.trees[0]
        self.sweep += first
        menu, X = (MENUW, XW) if self.wide else (MENU, X3)
        target = menu[(h * 5 + self.sweep * 11 + (0 if first else 3) * (self.k % 5)) % len(menu)]
        while real.canon(tree) is not None:
            c = real.canon(tree)
            real.do(tree, ("prune", ref.prunable(c, X)[0][0]))
        for m in target:
            real.do(tree, m)
        return None


def recount(samples, X=X3):
    c = [0] * X.shape[1]
    for s in samples:
        for t in s.trees:
            for _, sub, _, _ in ref.walk(real.canon(t), X):
                if sub is not None:
                    c[sub[0]] += 1
    return c


def run_selector(item):
    cov = Coverage()
    k = item["script"]
    wide = item.get("wide", False)
    X0, Y0 = (XW, YW) if wide else (X3, Y3)
    n, P = X0.shape
    for pc, frame, how in itertools.product(PERCENTILES + [0.29, 0.975] if k < 3 and not wide else PERCENTILES[k % 2::2] + [0.58, 0.375], (False, True), ("sequential", "isolated")):
        spec = streams.make(n_trees=1 + k % 2, n_chains=1 + k % 3, n_samples=1 + k % 2, n_burn=0, tree_sampler=Script(k, wide), n_jobs=1 if how == "sequential" else 2)
        streams.reset()
        kw = dict(percentile=pc)
        perms = 2 + k % 2 if pc != 0.95 or wide else 27
        if item["cls"] == "proportion":
            sel = SelectSplitProportionThreshold(spec, **kw)
        else:
            if k % 4 == 1:
                kw["n_trees"] = 1
            sel = SelectNullDistributionThreshold(spec, method=item["cls"], n_permutations=perms, **kw)
        X = pd.DataFrame(X0, columns=["c%d" % (P - v) for v in range(P)]) if frame else X0.copy()
        y = Y0.copy()
        if k % 3 == 2:
            # the given model was fitted and asked before
            spec.set_params(n_jobs=1).fit(X0[:, ::-1].copy(), Y0[::-1].copy())
            feature_split_proportions(spec)
            spec.set_params(n_jobs=1 if how == "sequential" else 2)
            streams.reset()
        told = None if spec.model_samples is None else list(map(id, spec.model_samples))
        np.random.seed(k)
        d = dict(selector=item["cls"], script=k, percentile=pc, frame=frame, run=how, columns=P)
        if how == "isolated":
            with isolated():
                out = sel.fit(X, y)
        else:
            out = sel.fit(X, y)
        need(out is sel, "fit does not return the selector", **d)
        need(np.array_equal(np.asarray(X), X0) and np.array_equal(y, Y0), "fitting changed the caller's data", **d)
        need((None if spec.model_samples is None else list(map(id, spec.model_samples))) == told and spec.n_trees == 1 + k % 2, "the caller's model was changed", **d)
        cnt = recount(sel.model.model_samples, X0)
        props = [Fraction(c, sum(cnt)) if sum(cnt) else Fraction(0) for c in cnt]
        need(same(sel.feature_proportions, dict(enumerate(props))), "the selector's split proportions are wrong", got=dict(sel.feature_proportions), counts=cnt, **d)
        if item["cls"] == "proportion":
            thr = [pc] * P
            want = [float(p) > pc for p in props]
        else:
            null = sel.null_distribution
            need(sorted(null) == list(range(P)) and all(len(null[v]) == perms for v in null), "null distribution has another size", got={v: len(null[v]) for v in null}, **d)
            for j in range(perms):
                tot = sum(null[v][j] for v in range(P))
                need(abs(tot - 1) < 1e-9 or abs(tot) < 1e-9, "proportions of a permutation do not sum to one", got=tot, **d)
            if kw.get("n_trees"):
                need(sel.model.n_trees == 1 and all(len(s.trees) == 1 for s in sel.model.model_samples), "n_trees of the selector is not used", **d)
            if item["cls"] == "local":
                thr = [quantile(null[v], pc) for v in range(P)]
            else:
                thr = [quantile([max(null[v][j] for v in range(P)) for j in range(perms)], pc)] * P
            need(all(abs(sel.thresholds[v] - thr[v]) < 1e-12 for v in range(P)), "the selector's thresholds are wrong", got=dict(sel.thresholds), expected=thr, **d)
            want = [float(props[v]) > sel.thresholds[v] for v in range(P)]
        mask = np.asarray(sel.get_support())
        for v in range(P):
            # a tie that is not exact in binary may round either way
            if abs(float(props[v]) - thr[v]) < 1e-12 and (4 * props[v]).denominator != 1 and mask.shape == (P,):
                want[v] = bool(mask[v])
        need(mask.shape == (P,) and [bool(m) for m in mask] == want, "the mask does not have the kept columns in column order", got=mask.tolist(), expected=want, **d)
        need([int(i) for i in sel.get_support(indices=True)] == [v for v in range(P) if want[v]], "support indices are wrong", **d)
        Xt = np.asarray(sel.transform(X))
        need(Xt.shape == (n, sum(want)) and np.array_equal(Xt, X0[:, want]), "transform does not keep exactly the selected columns", got=Xt.tolist(), expected=X0[:, want].tolist(), **d)
        cov.states += 1
        cov.executions += 1
        cov.transitions += 3
        cov.outcomes.add(tuple(want))
    cov.sample({"selector": item["cls"], "script": k})
    return cov

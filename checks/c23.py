"""C23: chains on concurrent threads, every interleaving up to a bound on preemptions."""
import copy
import gc
import math
import os
import time

import numpy as np

from bartpy.node import LeafNode
from bartpy.samplers.leafnode import LeafNodeSampler
from bartpy.samplers.scalar import DiscreteSampler, NormalScalarSampler, UniformScalarSampler
from bartpy.samplers.sigma import SigmaSampler
from bartpy.samplers.unconstrainedtree.treemutation import UnconstrainedTreeMutationSampler, get_tree_sampler
from bartpy.sklearnmodel import SklearnModel

from mc import real, ref, rng, sched
from mc.core import Coverage, Violation, need
from mc.rng import Controller
from mc.sched import untraced

ASSUMPTIONS = ["thread switches happen at the start of source lines of bartpy (fits) or between its bytecodes (scalar samplers); calls into numpy are atomic"]

DATA = {"two rows": (np.array([[0.0], [1.0]]), np.array([0.0, 4.0])),
        "constant": (np.array([[1.0], [1.0]]), np.array([3.0, 1.0])),
        "three rows": (np.array([[0.0, 1.0], [1.0, 0.0], [2.0, 0.0]]), np.array([1.0, 5.0, 2.0]))}


def items(tier):
    q = tier == "quick"
    out = []
    K = 48

    def fits(n, **kw):
        return [dict(kw, kind="fit", part=[k, n]) for k in range(n)]
    # one preemption at every line of bartpy
    out += fits(24, data="two rows", trees=1, samples=1, burn=0, chains=2, cache=1, bound=1, shared=False)
    out += fits(24, data="constant", trees=1, samples=2, burn=0, chains=2, cache=2, bound=1, shared=False, stride=1 if not q else 2)
    # two preemptions, at lines of functions that touch an object shared by the chains
    out += fits(K, data="two rows", trees=1, samples=1, burn=0, chains=2, cache=2, bound=2, shared=True, stride=8 if q else 1)
    if not q:
        out += fits(K, data="three rows", trees=2, samples=2, burn=1, chains=2, cache=3, bound=1, shared=False)
        out += fits(K, data="two rows", trees=1, samples=1, burn=0, chains=3, cache=1, bound=2, shared=True, stride=3)
        out += fits(K, data="three rows", trees=2, samples=1, burn=0, chains=2, cache=1000, bound=2, shared=True, stride=7)
    else:
        out += fits(16, data="three rows", trees=2, samples=1, burn=0, chains=3, cache=1, bound=1, shared=True)
    for name in ("normal", "uniform", "discrete"):
        for cache in (1, 2, 3):
            for calls in ([1, 1], [2, 2], [2, 1], [1, 3], [1, 1, 1]):
                if q and (len(calls) == 3 and cache > 1):
                    continue
                out.append({"kind": "scalar", "sampler": name, "cache": cache, "calls": calls, "bound": (1 if q and len(calls) == 3 else 2) if q or len(calls) == 3 or cache > 1 else 3})
    return out


def bounds(tier):
    return {"fits": "2 chains on 2 threads, one preemption at every line of bartpy; two preemptions (%s) at the lines of functions holding an object shared by the chains; 3 chains"
            % ("first one at every 8th point" if tier == "quick" else "all"),
            "scalar samplers": "2-3 threads, 1-3 draws each, cache sizes 1-3, up to %d preemptions between any two bytecodes" % (2 if tier == "quick" else 3)}


def run(item):
    return run_fit(item) if item["kind"] == "fit" else run_scalar(item)


# ------------------------------------------------------------------ fits
class Draws(Controller):
    """Distinct values for every draw, by the thread that asked."""

    def __init__(self):
        super().__init__()
        self.n, self.made, self.last_gamma = 0, [], {}

    def pick(self, n, weights=None, what=""):
        self.n += 1
        alive = [i for i in range(n) if weights is None or weights[i] > 0]
        return alive[self.n % len(alive)]

    def z(self):
        self.n += 1
        v = 0.001 * self.n + (1.5 if self.n % 2 else -1.5)
        self.made.append(v)
        return v

    def u(self):
        self.n += 1
        v = ((self.n * 0.6180339887) % 1.0) * 0.998 + 0.001
        self.made.append(v)
        return v

    def g(self, shape):
        self.n += 1
        v = shape * (0.8 + 0.4 * ((self.n * 0.6180339887) % 1.0))
        self.last_gamma.setdefault(sched.me(), []).append(v)
        return v


class Log:
    def __init__(self):
        self.delivered, self.by_thread, self.models, self.sigmas, self.states, self.proposal, self.bad, self.taken, self.rates = [], {}, {}, {}, {}, {}, None, {}, {}

    def fail(self, message, **d):
        if self.bad is None:
            self.bad = (message, d)

    def own(self, model):
        me = sched.me()
        self.models.setdefault(me, {})[id(model)] = model
        self.sigmas.setdefault(me, {})[id(model.sigma)] = model.sigma


class Scalar:
    def __init__(self, inner, log):
        self.inner, self.log = inner, log

    def sample(self):
        v = self.inner.sample()
        with untraced():
            self.log.delivered.append(v)
            self.log.by_thread.setdefault(sched.me(), []).append(v)
        return v


def predictions(model, skip=None):
    n = len(model.data.y.values)
    return sum([real.leaf_prediction(t, n) for t in model.trees if t is not skip], np.zeros(n))


class Leaf:
    def __init__(self, log, cache):
        self.log, self.inner = log, LeafNodeSampler(Scalar(NormalScalarSampler(cache), log))

    def step(self, model, node):
        log, me = self.log, sched.me()
        with untraced():
            log.own(model)
            tree = [t for t in model.trees if any(x is node for x in t.nodes)]
            if len(tree) != 1:
                log.fail("a leaf that is not in the chain's own model was drawn")
            else:
                rows = list(real.rows_of(node))
                r = (np.asarray(model.data.y.values) - predictions(model, tree[0]))[rows]
                s2, m2 = float(model.sigma.current_value()) ** 2, float(model.sigma_m) ** 2
                var = 1.0 / (1.0 / m2 + len(rows) / s2)
                mean = var * r.sum() / s2
                others = [(x, x.current_value) for t in model.trees for x in t.leaf_nodes if x is not node]
                k = len(log.by_thread.get(me, []))
        out = self.inner.step(model, node)
        with untraced():
            if len(tree) == 1:
                mine = log.by_thread.get(me, [])[k:]
                if len(mine) != 1 or abs(node.current_value - (mean + math.sqrt(var) * mine[0])) > 1e-8:
                    log.fail("a chain's leaf value is not drawn from its own state and its own draw", got=float(node.current_value), draws=mine, mean=float(mean), sd=math.sqrt(var))
                if any(x.current_value != v for x, v in others):
                    log.fail("a leaf update changed another leaf of the chain")
        return out


class Sigma:
    def __init__(self, log, ctl):
        self.log, self.ctl, self.inner = log, ctl, SigmaSampler()

    def step(self, model, sigma):
        log, me = self.log, sched.me()
        with untraced():
            log.own(model)
            if sigma is not model.sigma:
                log.fail("a chain updates a noise level that is not its own")
            r = np.asarray(model.data.y.values) - predictions(model)
            rate = sigma.beta + 0.5 * float((r * r).sum())
            k = len(self.ctl.last_gamma.get(me, []))
        out = self.inner.step(model, sigma)
        with untraced():
            mine = self.ctl.last_gamma.get(me, [])[k:]
            if len(mine) != 1 or abs(float(sigma.current_value()) - (mine[0] / rate) ** -0.5) > 1e-8 * (mine[0] / rate) ** -0.5:
                log.fail("a chain's noise level is not drawn from its own residuals and its own draw", got=float(sigma.current_value()), draws=mine, rate=rate)
            log.states.setdefault(me, []).append(state(model))
            took = log.taken.pop(me, [])
            log.rates.setdefault(me, []).append(round(sum(took) / max(1, len(took)), 9))
        return out


def state(model):
    out = []
    for t in model.trees:
        out.append((str(real.canon(t)), tuple(sorted((p, round(float(n.current_value), 9)) for p, n in real.index(t).items() if type(n) == LeafNode))))
    return (tuple(out), round(float(model.sigma.current_value()), 9))


class Proposer:
    def __init__(self, log):
        self.log, self.inner = log, get_tree_sampler(0.5, 0.5).proposer

    def propose(self, tree):
        out = self.inner.propose(tree)
        with untraced():
            self.log.proposal[sched.me()] = out
        return out


class Tree:
    def __init__(self, log, cache):
        self.log = log
        self.inner = UnconstrainedTreeMutationSampler(Proposer(log), get_tree_sampler(0.5, 0.5).likihood_ratio, scalar_sampler=Scalar(UniformScalarSampler(cache), log))

    def step(self, model, tree):
        log, me = self.log, sched.me()
        with untraced():
            log.own(model)
            if not any(t is tree for t in model.trees):
                log.fail("a chain updates a tree that is not its own")
            before = real.canon(tree)
            X = np.asarray(model.data.X.values)
            y = np.asarray(model.data.y.values) - predictions(model, tree)
            log.proposal[me] = None
            k = len(log.by_thread.get(me, []))
        out = self.inner.step(model, tree)
        with untraced():
            log.taken.setdefault(me, []).append(out is not None)
            after = real.canon(tree)
            p = log.proposal[me]
            mine = log.by_thread.get(me, [])[k:]
            if p is None:
                ok = out is None and before == after
            else:
                ok = len(mine) == 1
                if ok:
                    scratch = real.new_tree(X, y)
                    paths = grow_order(before)
                    for m in paths:
                        real.do(scratch, m)
                    mv = [m for m in ref.moves(before, X) if (m[0] == p.kind)]
                    cond = real.cond_of(p.updated_node if p.kind == "grow" else p.existing_node)
                    rows = tuple(sorted(real.rows_of(p.existing_node)))
                    hit = [m for m in mv if rows_at(before, X, m[1]) == rows and (m[0] == "prune" or m[2:4] == cond)]
                    ok = bool(hit)
                    if ok:
                        idx = real.index(scratch)
                        mut = real.grow_mutation(idx[hit[0][1]], hit[0][2], hit[0][3]) if p.kind == "grow" else real.prune_mutation(idx[hit[0][1]])
                        ratio = get_tree_sampler(0.5, 0.5).likihood_ratio.log_probability_ratio(model, scratch, mut)
                        if abs(math.log(mine[0]) - ratio) > 1e-9:
                            want = math.log(mine[0]) < ratio
                            ok = (out is not None) == want and after == (ref.apply(before, hit[0]) if want else before)
            if not ok:
                log.fail("a chain's tree update does not follow from its own tree and its own draw", before=before, after=after, accepted=out is not None, draws=mine)
        return out


def rows_at(tree, X, path):
    return [tuple(sorted(r)) for p, _, r, _ in ref.walk(tree, X) if p == path][0]


def grow_order(tree, path=()):
    if tree is None:
        return []
    v, val, l, r = tree
    return [("grow", path, v, val)] + grow_order(l, path + (0,)) + grow_order(r, path + (1,))


def shared_ids(est):
    """Objects of bartpy reachable from the estimator before the chains start."""
    out, todo = set(), [est]
    while todo:
        o = todo.pop()
        if id(o) in out:
            continue
        out.add(id(o))
        for x in list(getattr(o, "__dict__", {}).values()):
            if type(x).__module__.startswith(("bartpy", "checks")) or isinstance(x, (list, dict, tuple)):
                todo.append(x)
        if isinstance(o, (list, tuple)) and len(o) < 50:
            todo += [x for x in o if type(x).__module__.startswith(("bartpy", "checks"))]
    return out


def one(item, schedule):
    """Run a fit with preemptions at the given points; returns (number of points, error)."""
    X, y = DATA[item["data"]]
    log, ctl = Log(), Draws()
    est = SklearnModel(n_trees=item["trees"], n_chains=item["chains"], n_samples=item["samples"], n_burn=item["burn"], thin=1.0, n_jobs=2,
                       store_in_sample_predictions=True, store_acceptance_trace=True, tree_sampler=Tree(log, item["cache"]))
    est.schedule.leaf_sampler, est.schedule.sigma_sampler = Leaf(log, item["cache"]), Sigma(log, ctl)
    ids = shared_ids(est) if item["shared"] else None
    count = [0]

    def plan(step, me, can):
        count[0] = step + 1
        k = schedule.get(step)
        if k is None:
            return me
        others = [t for t in can if t != me]
        return others[k % len(others)] if others else me

    def where(frame):
        return any(id(v) in ids for v in frame.f_locals.values())
    d = dict(preemptions=schedule, data=X.tolist(), chains=item["chains"], trees=item["trees"], samples=item["samples"], cache=item["cache"])
    with ctl:
        try:
            with sched.controlled(plan, where=where if item["shared"] else None):
                est.fit(X.copy(), y.copy())
        except sched.Stuck:
            return count[0], True
        except Violation:
            raise
        except Exception as e:
            raise Violation("a chain failed under this interleaving: %s: %s" % (type(e).__name__, e), **d)
    if log.bad:
        raise Violation(log.bad[0], **dict(log.bad[1], **d))
    need(len(log.models) == item["chains"], "not every chain ran on a thread of its own", **d)
    for me in log.models:
        need(len(log.models[me]) == 1, "a chain worked on more than one model", thread=me, **d)
        need(len(log.sigmas[me]) == 1, "a chain worked with more than one noise level", thread=me, **d)
    need(len({m for v in log.models.values() for m in v}) == item["chains"], "two chains share a model", **d)
    need(len({m for v in log.sigmas.values() for m in v}) == item["chains"], "two chains share a noise level", **d)
    need(len(set(log.delivered)) == len(log.delivered), "a draw was delivered twice", **d)
    made = set(ctl.made)
    need(all(v in made for v in log.delivered), "a draw was invented", **d)
    need(len(est.extract) == item["chains"], "a chain is missing from the result", **d)
    want = sorted(str((log.states[me][item["burn"]:], log.rates[me][item["burn"]:])) for me in log.states)
    got = sorted(str(([state(m) for m in ch["model"]], [round(float(a["Tree"]), 9) for a in ch["acceptance"]])) for ch in est.extract)
    need(got == want, "the result does not hold the samples and the acceptance rates of each chain once", got=got, expected=want, **d)
    for ch in est.extract:
        for m, p in zip(ch["model"], ch["in_sample_predictions"]):
            need(np.allclose(m.predict(X), p), "a stored prediction belongs to another chain", **d)
    return count[0], False


class OutOfTime(Exception):
    pass


def clock(cov):
    """Code with many more switch points than today's must not exceed the time of a quick run; what was cut is reported."""
    if os.environ.get("MC_TIER", "quick") != "quick":
        return lambda: None
    end = time.time() + 30

    def look():
        if time.time() > end:
            cov.add("units_cut_short")
            raise OutOfTime()
    return look


def spread(points):
    """Every point once, far ones first."""
    points = list(points)
    step = max(1, int(len(points) * 0.618))
    while math.gcd(step, len(points) or 1) != 1:
        step += 1
    return [points[(i * step) % len(points)] for i in range(len(points))]


def run_fit(item):
    cov = Coverage()
    k, n = item["part"]
    stride = item.get("stride", 1)
    look = clock(cov)

    def go(schedule):
        look()
        p, stuck = one(item, schedule)
        cov.executions += 1
        cov.transitions += p
        cov.truncated += stuck
        return p
    gc.disable()
    try:
        base = go({})
        for i in spread(i for i in range(base) if i % stride == 0 and (i // stride) % n == k):
            for who in range(item["chains"] - 1):
                p = go({i: who})
                cov.states += 1
                if item["bound"] > 1:
                    for j in spread(range(i + 1, p)):
                        go({i: who, j: 0})
                        cov.states += 1
            gc.collect()
    except OutOfTime:
        pass
    finally:
        gc.enable()
    cov.add("points_of_default_schedule", base if k == 0 else 0)
    cov.sample({kk: item[kk] for kk in ("data", "chains", "bound", "shared", "cache")}, cap=1)
    return cov


# ------------------------------------------------------------------ scalar samplers
class Token:
    def __init__(self, k):
        self.k = k


def run_scalar(item):
    cov = Coverage()

    def once(schedule):
        made = []

        class C(Controller):
            def z(self):
                made.append(len(made) + 0.25)
                return made[-1]

            u = z

            def u_batch(self, size):
                return [self.z() for _ in range(size)]

            def pick_batch(self, n, size, weights):
                base = len(made)
                made.extend(range(base, base + size))
                return [(base + i) % n for i in range(size)]

            def pick_value(self, values, weights, frame):
                made.append(len(made))
                return (len(made) - 1) % len(values)
        if item["sampler"] == "normal":
            s = NormalScalarSampler(item["cache"])
        elif item["sampler"] == "uniform":
            s = UniformScalarSampler(item["cache"])
        else:
            values = list(range(64))
            s = DiscreteSampler(values, [1.0 / 64] * 64, item["cache"])
        out = [[] for _ in item["calls"]]

        def task(i, n):
            def f():
                for _ in range(n):
                    out[i].append(s.sample())
            return f
        count = [0]

        def plan(step, me, can):
            count[0] = step + 1
            k = schedule.get(step)
            others = [t for t in can if t != me]
            return me if k is None or not others else others[k % len(others)]
        with C():
            g = sched.Group([task(i, n) for i, n in enumerate(item["calls"])], plan, opcodes=True)
            try:
                res = g.run()
            except sched.Stuck:
                cov.truncated += 1
                return count[0]
        d = dict(sampler=item["sampler"], cache=item["cache"], calls=item["calls"], preemptions=schedule)
        for r in res:
            if r[0] != "ok":
                raise Violation("drawing failed under this interleaving: %r" % (r[1],), **d)
        flat = [float(v) for o in out for v in o]
        need(len(flat) == sum(item["calls"]), "draws are missing", **d)
        need(len(set(flat)) == len(flat), "a draw was delivered to two threads", got=out, **d)
        need(all(v in made for v in flat), "a draw was invented", got=flat, **d)
        cov.executions += 1
        cov.transitions += count[0]
        cov.outcomes.add(tuple(map(tuple, out)))
        return count[0]

    look = clock(cov)

    def rec(schedule, left, start):
        look()
        p = once(schedule)
        cov.states += 1
        if left:
            for i in spread(range(start, p)):
                for who in range(len(item["calls"]) - 1):
                    rec(dict(schedule, **{}) | {i: who}, left - 1, i + 1)
    try:
        rec({}, item["bound"], 0)
    except OutOfTime:
        pass
    cov.sample({kk: item[kk] for kk in ("sampler", "cache", "calls", "bound")}, cap=1)
    return cov

"""C30: custom schedules, trace loggers, proposal methods and initializers are honoured."""
import itertools

import numpy as np

from bartpy.data import Data
from bartpy.errors import NoPrunableNodeException, NoSplittableVariableException
from bartpy.initializers.initializer import Initializer
from bartpy.model import Model
from bartpy.samplers.modelsampler import ModelSampler
from bartpy.samplers.schedule import SampleSchedule
from bartpy.samplers.unconstrainedtree.proposer import UniformMutationProposer
from bartpy.sigma import Sigma
from bartpy.sklearnmodel import SklearnModel
from bartpy.trace import TraceLogger

from mc import real, ref
from mc.core import Coverage, close, explore, need
from mc.rng import Controller
from checks import common, streams

KINDS = ["Tree", "Node", "Sigma", "Shrink"]


def items(tier):
    q = tier == "quick"
    out = []
    for n in range(0, 4 if q else 5):
        for seq in itertools.product(range(4), repeat=n):
            if n < 3 or q and sum(seq) % 3 == 0 or not q and (n < 4 or sum(seq) % 4 == 1):
                out.append({"kind": "schedule", "steps": [KINDS[i] for i in seq], "runs": [(1, 0, 1.0), (2, 1, 1.0), (3, 0, 0.5)] if n < 2 else [(2, 1, 0.5)] if n < 4 else [(1, 1, 1.0)]})
    out.append({"kind": "vary"})
    out += [{"kind": "lookup", "n": n} for n in (1, 2, 3, 4)]
    out.append({"kind": "fallback"})
    for cols in [[[0, 1]], [[1, 0, 2]], [[0, 1], [1, 0]], [[0, 1, 1]]] + ([] if q else [[[2, 0, 1, 3]], [[0, 1, 0], [1, 1, 0]]]):
        out += [{"kind": "initializer", "cols": cols, "nt": nt} for nt in (1, 2, 3)]
    out += [{"kind": "functions"}]
    out += [{"kind": "estimator", "chains": c, "n": n, "thin": t} for c in (1, 2, 3) for n, t in ((1, 1.0), (3, 1.0), (4, 0.5))]
    return out


def bounds(tier):
    return {"schedules": "every sequence of up to %d steps out of %s, the same each sweep; sequences that change from sweep to sweep" % (3 if tier == "quick" else 4, KINDS),
            "logged values": "every choice of None, a true or a false value (and a list of odd ones such as 0 and empty arrays) by the logger's function of each call", "runs": "1-3 samples, 0-1 burn-in sweeps, thin 1 and 0.5, predictions and acceptance requested or not",
            "proposal methods": "1 to 4 custom methods over a menu of probabilities, zero included; every pattern of methods that find nothing to do", "initializers": "every assignment of trees to 1-3 trees of a model over small data sets"}


class Steps:
    """A schedule of its own: yields the given kinds, and records when each step is asked for and run."""

    def __init__(self, kinds):
        self.kinds, self.events, self.sweep, self.results = kinds, [], 0, []

    def steps(self, model):
        s = self.sweep
        self.sweep += 1
        kinds = self.kinds[s % len(self.kinds)] if self.kinds and isinstance(self.kinds[0], list) else self.kinds
        for i, k in enumerate(kinds):
            self.events.append(("ask", s, i))
            yield k, self.one(model, s, i, k)
        self.events.append(("end", s))

    def one(self, model, s, i, k):
        def run():
            self.events.append(("run", s, i))
            for j, t in enumerate(model.trees):     # what the model predicts changes with every step
                t.leaf_nodes[0].set_value(s + 0.25 * i + j)
            r = ("result", s, i, k)
            self.results.append(r)
            return r
        return run


def new_model(nt=2):
    X = np.array([[0.0], [1.0], [3.0]])
    return Model(Data(X, np.array([-0.5, 0.25, 0.5])), Sigma(1.0, 1.0, 1.0), n_trees=nt, initializer=None)


class Flag:
    """A stored value, true or false."""

    def __init__(self, truth):
        self.truth = truth

    def __bool__(self):
        return self.truth


def make_logger(rec, decide, schedule):
    class Logger(TraceLogger):
        def __getitem__(self, item):
            def f(x):
                v = decide(item)
                rec.append((item, x, np.array(x, copy=True) if item == "In Sample Prediction" else None, schedule.sweep, len(schedule.events), v))
                return v
            return f
    return Logger


def judge(rec, out, schedule, kinds_of, n, burn, thin, preds, accept, d):
    kept = [s for s in range(n) if np.floor(s * thin + 1e-9) > np.floor((s - 1) * thin + 1e-9)]
    # steps: asked for, run and logged one after another
    want = []
    for s in range(burn + n):
        for i, k in enumerate(kinds_of(s)):
            want += [("ask", s, i), ("run", s, i)]
        want.append(("end", s))
    need(schedule.events == want, "the steps of the schedule are not run once each, in order, when it yields them", got=schedule.events[:60], expected=want[:60], **d)
    steps = [r for r in rec if r[0] in KINDS]
    expect = [("result", s, i, k) for s in range(burn + n) for i, k in enumerate(kinds_of(s))]
    need([r[1] for r in steps] == expect and [r[0] for r in steps] == [e[3] for e in expect], "the trace logger does not get each step's result under its kind, in order",
         got=[(r[0], r[1]) for r in steps][:30], expected=expect[:30], **d)
    for r, e in zip(steps, expect):
        need(any(r[1] is x for x in schedule.results), "the trace logger gets something else than the result of the step", **d)
        need(r[3] == e[1] + 1, "a result is logged in another sweep", **d)
    ends = {s: schedule.events.index(("end", burn + s)) + 1 for s in range(n)}
    for what, on, key in (("Model", True, "model"), ("In Sample Prediction", preds, "in_sample_predictions")):
        calls = [r for r in rec if r[0] == what]
        need(len(calls) == (len(kept) if on else 0), "the logger's function for %s is not called once per retained sweep" % what, got=len(calls), expected=len(kept) if on else 0, **d)
        if on:
            need([c[4] for c in calls] == [ends[s] for s in kept], "%s is logged at another moment than the end of a retained sweep" % what, **d)
        vals = [c[5] for c in calls if c[5] is not None]
        got = list(out[key])
        need(len(got) == len(vals) and all(a is b for a, b in zip(got, vals)), "what is stored under %s is not what the logger returned, without None" % key, got=len(got), expected=len(vals), **d)
    need(len(out["acceptance"]) == (len(kept) if accept else 0), "wrong number of acceptance entries", got=len(out["acceptance"]), **d)
    if accept:
        for s, a in zip(kept, out["acceptance"]):
            vals = {}
            for r in steps:
                if r[3] == burn + s + 1 and r[5] is not None:
                    vals.setdefault(r[0], []).append(bool(r[5]))
            need(set(a) <= set(vals), "an acceptance entry has a kind of step for which nothing was logged in that sweep", got=dict(a), **d)
            for k, v in vals.items():
                need(k in a and close(a[k], sum(v) / len(v)), "an acceptance entry is not the fraction of true values logged for its kind of step", kind=k, got=dict(a), expected=v, **d)


def run(item):
    return globals()["run_" + item["kind"]](item)


def run_schedule(item):
    cov = Coverage()
    for (n, burn, thin), (preds, accept) in itertools.product(item["runs"], itertools.product((True, False), repeat=2)):
        if len(item["steps"]) > 1 and preds != accept:
            continue

        def one(ch):
            schedule, rec, model = Steps(item["steps"]), [], new_model()

            def decide(what):
                if what in KINDS and schedule.sweep > 2:
                    return Flag(schedule.sweep % 2 == 0)
                k = ch.pick(3)
                return None if k == 1 else Flag(k == 0)
            out = ModelSampler(schedule, make_logger(rec, decide, schedule)).samples(model, n, burn, thin, preds, accept)
            d = dict(steps=item["steps"], n_samples=n, n_burn=burn, thin=thin, predictions=preds, acceptance=accept)
            judge(rec, out, schedule, lambda s: item["steps"], n, burn, thin, preds, accept, d)
            for r in rec:
                if r[0] == "Model":
                    need(r[1] is model, "the logger gets another model than the sampled one", **d)
                if r[0] == "In Sample Prediction" and item["steps"]:
                    s = r[3] - 1
                    v = sum(s + 0.25 * (len(item["steps"]) - 1) + j for j in range(2))
                    need(close(r[2], [v] * 3), "the logger gets another prediction than that of the retained sweep", got=r[2].tolist(), expected=v, **d)
            return len(schedule.events)
        for ch, k in explore(one):
            cov.executions += 1
            cov.states += 1
            cov.transitions += k
    cov.sample({"steps": item["steps"]})
    return cov


ODD = [("stored",), 0.0, (), None, "", False, np.zeros(0), [], {}, np.array([0.0]), 7]      # anything but None is stored


def run_vary(item):
    """Steps that differ from sweep to sweep, long runs, one sampler used for several runs."""
    cov = Coverage()
    plans = [[["Tree"], ["Tree", "Node"], []], [["Shrink"], ["Sigma", "Tree"]], [["Tree", "Node", "Sigma"] * 4, ["Node"]], [[], ["Tree"] * 9]]
    for plan in plans:
        for n, burn, thin in ((7, 3, 1.0), (20, 2, 0.25), (40, 7, 0.1), (5, 0, 0.5)):
            schedule, rec = Steps(plan), []
            m = [0]

            def decide(what):
                m[0] += 1
                return [Flag(True), None, Flag(False), Flag(True)][m[0] % 4] if what in KINDS else ODD[m[0] % len(ODD)]
            sampler = ModelSampler(schedule, make_logger(rec, decide, schedule))
            for again in range(2):
                del rec[:]
                schedule.sweep, schedule.events, schedule.results = 0, [], []
                out = sampler.samples(new_model(), n, burn, thin, True, True)
                judge(rec, out, schedule, lambda s: plan[s % len(plan)], n, burn, thin, True, True, dict(plan=plan, n_samples=n, n_burn=burn, thin=thin, run=again + 1))
                cov.executions += 1
                cov.transitions += len(schedule.events)
            cov.states += 1
    return cov


PROBS = [0.0, 0.1, 0.25, 0.3, 0.5, 0.6, 1.0]


def run_lookup(item):
    cov = Coverage()
    n = item["n"]
    X = np.array([[0.0], [1.0], [2.0]])
    for probs in itertools.product(PROBS, repeat=n):
        if abs(sum(probs) - 1) > 1e-9:
            continue
        for start in ((), (("grow", (), 0, 0.0),)):
            def method(i):
                def f(tree):
                    calls.append((i, tree))
                    return made[i]
                return f
            methods = [method(i) for i in range(n)]
            made = [object() for _ in range(n)]
            total = {}

            def one(ch):
                del calls[:]
                tree = real.build(X, np.zeros(3), start)
                with Controller(pick=ch.pick):
                    got = UniformMutationProposer(prob_method_lookup=dict(zip(methods, probs))).propose(tree)
                i = [k for k in range(n) if got is made[k]]
                need(len(i) == 1 and len(calls) == 1 and calls[0][0] == i[0] and calls[0][1] is tree, "the proposal is not what the chosen method returned for the tree", probabilities=probs, calls=len(calls))
                return i[0]
            calls = []
            for ch, i in explore(one):
                total[i] = total.get(i, 0.0) + ch.weight
                cov.executions += 1
                cov.transitions += 1
            for i in range(n):
                need(close(total.get(i, 0.0), probs[i]), "a proposal method is used with another probability than configured", method=i, got=total.get(i, 0.0), expected=probs[i], probabilities=probs)
            cov.states += 1
    return cov


def run_fallback(item):
    """Methods that find nothing to do: the others are used; the tree is not touched."""
    cov = Coverage()
    X = np.array([[0.0], [1.0], [2.0]])
    for n in (2, 3):
        for fails in itertools.product((None, NoSplittableVariableException, NoPrunableNodeException), repeat=n):
            if all(fails):
                continue
            for start in ((), (("grow", (), 0, 0.0),)):
                made = [object() for _ in range(n)]

                def method(i):
                    def f(tree):
                        if fails[i] is not None:
                            raise fails[i]()
                        return made[i]
                    return f

                def one(ch):
                    tree = real.build(X, np.zeros(3), start)
                    before = real.canon(tree)
                    with Controller(pick=ch.pick, retry=True):
                        got = UniformMutationProposer(prob_method_lookup={method(i): 1.0 / n for i in range(n)}).propose(tree)
                    need(any(got is made[i] for i in range(n) if fails[i] is None), "the proposal is not one of a method that found a move", fails=[str(f) for f in fails])
                    need(real.canon(tree) == before, "proposing changed the tree")
                for ch, _ in explore(one, limit=30):
                    cov.executions += 1
                    cov.transitions += 1
                cov.states += 1
    return cov


class Plan(Initializer):
    """Builds a given tree on each tree it gets."""

    def __init__(self, plan, log):
        self.plan, self.log = plan, log

    def __deepcopy__(self, memo):
        return self

    def initialize_tree(self, tree):
        i = len(self.log) % len(self.plan)
        self.log.append((tree, np.array(tree.nodes[0].data.y.values, dtype=float), real.canon(tree), [l.current_value for l in tree.leaf_nodes]))
        for m in self.plan[i]:
            real.do(tree, (m[0], tuple(m[1])) + tuple(m[2:]))
        for j, leaf in enumerate(tree.leaf_nodes):
            leaf.set_value(value(i, j))


def value(i, j):
    return 0.125 * (i + 1) - 0.0625 * j


class Whole(Plan):
    """Takes the trees itself."""

    def initialize_trees(self, trees):
        for tree in trees:
            self.initialize_tree(tree)


def run_initializer(item):
    cov = Coverage()
    X = ref.matrix(item["cols"], 1)
    y = ref.targets(len(X))
    nt = item["nt"]
    order, hist = ref.all_trees(X, cap=6 if nt < 3 else 4)
    for plan in itertools.product(range(len(order)), repeat=nt):
        for cls, how in ((Plan, "model"), (Whole, "model"), (Plan, "constructor"), (Plan, "set_params")):
            if how != "model" and sum(plan) % 2:
                continue
            log = []
            init = cls([hist[order[k]] for k in plan], log)
            d = dict(data=X.tolist(), plan=[str(order[k]) for k in plan], initializer=cls.__name__, given=how)
            if how == "model":
                model = Model(Data(X.copy(), y.copy(), normalize=True), Sigma(1.0, 1.0, 1.0), n_trees=nt, initializer=init)
                models = [model]
            else:
                est = SklearnModel(n_trees=nt, n_chains=2, n_samples=1, n_burn=0, thin=1.0, n_jobs=1, tree_sampler=Still(), **({"initializer": init} if how == "constructor" else {}))
                if how == "set_params":
                    est.set_params(initializer=init)
                est.schedule.leaf_sampler = est.schedule.sigma_sampler = Still()
                est.fit(X.copy(), y.copy())
                models = list(est.model_samples)
                need(len(models) == 2, "samples are missing", **d)
            need(len(log) % nt == 0 and len(log) >= nt * len(models), "the initializer is not given every tree of every new model", got=len(log), trees=nt, **d)
            yn = -0.5 + (y - y.min()) / (y.max() - y.min()) if y.max() > y.min() else y - y.min()
            for k in range(0, len(log), nt):
                part = log[k:k + nt]
                need(len({id(p[0]) for p in part}) == nt, "the initializer is given a tree twice", **d)
                pred = [yn * 0.0 for _ in range(nt)]
                for i, (tree, target, shape, vals) in enumerate(part):
                    need(shape is None, "the initializer is given a tree that was built already", **d)
                    need(close(target, yn - np.sum(pred, axis=0) if nt > 1 else yn), "the initializer is given a tree that is not at the residual of the trees before it", tree=i, got=target.tolist(), **d)
                    pred[i] = values_of(order[plan[i]], X, i)
            for m in models:
                for i, t in enumerate(m.trees):
                    idx = real.index(t)
                    need(real.canon(t) == order[plan[i]], "a tree of the model is not the one the initializer built", tree=i, got=real.canon(t), expected=order[plan[i]], **d)
                    need(close(t.predict(X), values_of(order[plan[i]], X, i)), "a tree of the model does not have the leaf values the initializer set", tree=i, **d)
                    if how == "model":
                        need(any(t is p[0] for p in log), "a tree of the model is not one the initializer was given", **d)
            cov.executions += 1
            cov.transitions += len(log)
        cov.states += 1
    return cov


def values_of(t, X, i):
    """Prediction of the initialized tree: leaf values go by position in the list of leaves, as built by the same moves."""
    y = np.zeros(len(X))
    _, hist = ref.all_trees(X, cap=6)
    tree = real.build(X, y, hist[t])
    for j, leaf in enumerate(tree.leaf_nodes):
        leaf.set_value(value(i, j))
    return real.leaf_prediction(tree, len(X))


class Still:
    """A sampler that changes nothing."""

    def __deepcopy__(self, memo):
        return self

    def step(self, model, thing):
        return None


def run_functions(item):
    """The functions of the shipped logger can be replaced one by one; without arguments it is the default."""
    cov = Coverage()
    f = {"Tree": lambda x: ("t", x), "Model": lambda x: ("m", x), "In Sample Prediction": lambda x: ("p", x)}
    names = {"Tree": "f_tree_mutation_log", "Model": "f_model_log", "In Sample Prediction": "f_in_sample_prediction_log"}
    marks = {"Tree": "t", "Model": "m", "In Sample Prediction": "p"}
    for n in range(4):
        for own in itertools.combinations(sorted(f), n):
            log = TraceLogger(**{names[k]: f[k] for k in own})
            model = new_model()
            thing = np.array([1.0, 2.0])
            for k in f:
                x = model if k == "Model" else thing
                r = log[k](x)
                cov.transitions += 1
                if k in own:
                    need(isinstance(r, tuple) and r[0] == marks[k] and r[1] is x, "a function given to the trace logger is not the one used", function=names[k], given=own)
                elif k == "Tree":
                    need(bool(r) is True and not log[k](None), "the default log of a tree update is not whether it changed the tree", given=own)
                elif k == "Model":
                    need(r is not model and len(r.trees) == len(model.trees) and close(r.predict(np.array([[0.0]])), model.predict(np.array([[0.0]]))), "the default log of a model is not a copy of it", given=own)
                else:
                    need(close(r, x), "the default log of a prediction is not the prediction", given=own)
            for k in ("Node", "Sigma"):
                need(log[k](3.0) is None, "the default log of %s steps stores something" % k)
            for k in ("node", "Other", ""):
                try:
                    log[k]
                except KeyError:
                    continue
                need(False, "an unknown kind of step is not refused", step=k)
            cov.states += 1
            cov.executions += 1
    return cov


def run_estimator(item):
    """A sampler with its own schedule and logger, used by the estimator for every chain."""
    cov = Coverage()
    X, y = np.array([[0.0, 1.0], [1.0, 0.0], [2.0, 1.0], [3.0, 3.0]]), np.array([3.0, -1.0, 10.0, 2.0])
    for store in (True, False):
        for extra in (0, 1, 2):
            log = []

            class Own(SampleSchedule):
                def __deepcopy__(self, memo):
                    return self

                def steps(self, model):
                    yield from super().steps(model)
                    for k in range(extra):
                        yield "Shrink", lambda: log.append(("shrink", id(model))) or (len(log) % 3 == 0)

            class Logger(TraceLogger):
                def __getitem__(self, what):
                    if what == "Shrink":
                        return lambda x: x
                    if what == "Model":
                        return lambda m: log.append(("model", id(m))) or ("kept", len(log))
                    return super().__getitem__(what)
            streams.reset()
            est = streams.make(n_chains=item["chains"], n_samples=item["n"], thin=item["thin"], store_in_sample_predictions=store, store_acceptance_trace=store)
            est.sampler = ModelSampler(Own(est.schedule.tree_sampler, est.schedule.leaf_sampler, est.schedule.sigma_sampler), Logger)
            est.fit(X.copy(), y.copy())
            d = dict(chains=item["chains"], n_samples=item["n"], thin=item["thin"], extra=extra, store=store)
            kept = [s for s in range(item["n"]) if np.floor(s * item["thin"] + 1e-9) > np.floor((s - 1) * item["thin"] + 1e-9)]
            sweeps = item["n"] + 1
            need(sum(e[0] == "shrink" for e in log) == extra * sweeps * item["chains"], "the additional steps were not run once per sweep of every chain", got=len(log), **d)
            marks = [("kept", i + 1) for i, e in enumerate(log) if e[0] == "model"]
            need(len(marks) == len(kept) * item["chains"], "the custom logger did not get one model per retained sweep", got=len(marks), **d)
            got = [(str(a), int(b)) for a, b in est.model_samples]
            need(got == marks, "the stored samples are not what the custom logger returned, chain by chain", got=got, expected=marks, **d)
            need(len(est.acceptance_trace) == (len(marks) if store else 0), "wrong number of acceptance entries", **d)
            if store and extra:
                need(all("Shrink" in a and "Tree" in a for a in est.acceptance_trace), "an acceptance entry lacks a kind of step", got=[sorted(a) for a in est.acceptance_trace], **d)
            # the usual steps are those of the default schedule on the same draws
            streams.reset()
            base = streams.make(n_chains=item["chains"], n_samples=item["n"], thin=item["thin"], store_in_sample_predictions=True, store_acceptance_trace=True)
            base.fit(X.copy(), y.copy())
            if store:
                need(close(np.asarray(est.prediction_samples, dtype=float), np.asarray(base.prediction_samples, dtype=float)), "additional steps changed the usual ones", **d)
                need(all(close(a["Tree"], b["Tree"]) for a, b in zip(est.acceptance_trace, base.acceptance_trace)), "additional steps changed the usual ones", **d)
            cov.executions += 2
            cov.states += 1
            cov.transitions += len(log)
    return cov

"""C11: what one sweep does, over every pattern of accepted moves."""
import numpy as np

from bartpy.data import Data
from bartpy.model import Model
from bartpy.mutation import TreeMutation
from bartpy.node import LeafNode
from bartpy.samplers.modelsampler import ModelSampler
from bartpy.samplers.schedule import SampleSchedule
from bartpy.sigma import Sigma
from bartpy.trace import TraceLogger
from bartpy.tree import mutate

from mc import real, ref
from mc.core import Coverage, close, explore, need
from checks import big
from checks.c05 import expected

DATA = [[[0, 1]], [[1, 0, 2]], [[0, 0]], [[0, 1, 0], [1, 1, 0]], [[2, 0, 1, 3]]]


def items(tier):
    q = tier == "quick"
    out = []
    for cols in DATA:
        for nt, sweeps in [(1, 3), (2, 2), (3, 1), (3, 2), (2, 3)] + ([] if q else [(4, 1), (1, 5), (4, 2)]):
            for how in ("step", "samples"):
                full = nt * sweeps <= (4 if q else 5)
                out.append({"cols": cols, "nt": nt, "sweeps": sweeps, "how": how, "menu": "all" if full and len(cols[0]) < 4 else "short"})
    out += [{"name": n, "nt": nt, "sweeps": 4, "how": how, "menu": "all"} for n in big.MORE for nt, how in ((5, "step"), (13, "samples"))]
    out += [{"name": n, "nt": 130, "sweeps": 2, "how": how, "menu": "short"} for n, how in (("wide", "step"), ("ends", "samples"))]
    out.append({"name": "tall", "nt": 2, "sweeps": 2, "how": "step", "menu": "short", "leaves": 100 if q else 128})
    return out


def bounds(tier):
    return {"trees": "1-3 (4); 5, 13 and 130 on larger data with fixed patterns of moves, also starting from large trees (up to 100 leaves)", "sweeps": "1-3 (5)", "per visit": "reject or any move (short menu on long runs: reject, first grow, first prune)",
            "run by": ["ModelSampler.step", "ModelSampler.samples (first sweep as burn in)"]}


class Fixed:
    def __init__(self, seed):
        self.seed = seed
        self.r = big.lcg(seed)

    def pick(self, n, w=None, what=""):
        return self.r(n)


class Log:
    def __init__(self, X, y, menu, ch):
        self.X, self.y, self.menu, self.ch = X, y, menu, ch
        self.events, self.n = [], 0
        self.d = {}


class TreeRec:
    def __init__(self, log):
        self.log = log

    def step(self, model, tree):
        L = self.log
        i = [j for j, t in enumerate(model.trees) if t is tree]
        need(len(i) == 1, "the updated tree is not a tree of the model", **L.d)
        targets_ok(model, i[0], L)
        mv = [m[:4] for m in ref.moves(real.canon(tree), L.X)]
        if L.menu == "short":
            mv = [m for m in mv if m[0] == "grow"][:1] + [m for m in mv if m[0] == "prune"][:1]
        k = L.ch.pick(1 + len(mv), None, "move")
        L.events.append(("tree", i[0], None if k == 0 else mv[k - 1]))
        if k == 0:
            return None
        return real.do(tree, mv[k - 1])


class LeafRec:
    def __init__(self, log):
        self.log = log

    def step(self, model, node):
        L = self.log
        where = [(j, p) for j, t in enumerate(model.trees) for p, nd in real.index(t).items() if nd is node]
        need(len(where) == 1 and type(node) == LeafNode, "a leaf draw for a node that is not a current leaf of the model", events=L.events, **L.d)
        targets_ok(model, where[0][0], L)
        L.n += 1
        v = 0.125 * ((L.n * 5) % 17 - 8)
        node.set_value(v)
        L.events.append(("leaf",) + where[0])
        return v


class SigmaRec:
    def __init__(self, log):
        self.log = log

    def step(self, model, sigma):
        L = self.log
        need(sigma is model.sigma, "the noise level of another model was drawn", **L.d)
        total = np.sum([expected(t, L.X) for t in model.trees], axis=0)
        need(close(model.residuals(), L.y - total), "residuals seen by the noise draw are not those of the current trees", events=L.events, **L.d)
        L.events.append(("sigma", tuple(tuple(p for p, nd in real.index(t).items() if type(nd) == LeafNode) for t in model.trees)))
        sigma.set_value(1.0 + len(L.events))
        return sigma.current_value()

    sample = step


def targets_ok(model, i, L):
    other = sum((expected(t, L.X) for j, t in enumerate(model.trees) if j != i), np.zeros(len(L.X)))
    target = L.y - other
    idx = real.index(model.trees[i])
    for path, sub, rows, _ in ref.walk(real.canon(model.trees[i]), L.X):
        real.stats_ok(idx[path], L.X, target, rows, ["target", "sum"], tree_number=i, path=path, events=list(L.events), **L.d)


def run(item):
    cov = Coverage()
    if "name" in item:
        X, y = big.data(item["name"])
    else:
        X = ref.matrix(item["cols"], 1)
        y = ref.targets(len(X))
    nt, sweeps = item["nt"], item["sweeps"]

    def one(ch):
        log = Log(X, y, item["menu"], ch)
        log.d = dict(data=X.tolist(), trees=nt)
        model = Model(Data(X.copy(), y.copy()), Sigma(1.0, 1.0, 1.0), n_trees=nt, initializer=None)
        shapes = [None] * nt
        if "name" in item and "leaves" not in item and ch.seed % 2:
            for i, t in enumerate(model.trees):
                for m, shape in big.history(X, ("bushy", "mixed", "right")[i % 3], 10 + 7 * i if i < 3 else 2, i + 1):
                    real.do(t, m)
                    shapes[i] = shape
        if "leaves" in item:
            for m, shapes[0] in big.history(X, "even", item["leaves"] - 1 - ch.seed, 3):
                real.do(model.trees[0], m)
        ms = ModelSampler(SampleSchedule(TreeRec(log), LeafRec(log), SigmaRec(log)))
        if item["how"] == "step":
            for _ in range(sweeps):
                ms.step(model, TraceLogger())
        else:
            ms.samples(model, sweeps - 1, 1, 1.0, True, True)
        judge(log, nt, sweeps, shapes)
        return log.events
    runs = explore(one)
    if "name" in item:          # two fixed patterns of moves
        runs = []
        for seed in (1, 2):
            ch = Fixed(seed)
            runs.append((ch, one(ch)))
    for ch, ev in runs:
        cov.executions += 1
        cov.states += 1
        cov.transitions += len(ev)
        cov.outcomes.add(hash(str(ev)))
    cov.sample({"data": X.tolist(), "trees": nt, "sweeps": sweeps, "events": str(ev)[:300]})
    return cov


def judge(log, nt, sweeps, shapes):
    ev = list(log.events)
    d = dict(events=log.events, **log.d)
    shape = list(shapes)
    k = 0

    def nxt():
        nonlocal k
        need(k < len(ev), "a sweep ended early", **d)
        k += 1
        return ev[k - 1]
    for s in range(sweeps):
        for i in range(nt):
            e = nxt()
            need(e[0] == "tree" and e[1] == i, "expected the structure update of tree %d" % i, got=e, position=k, **d)
            if e[2] is not None:
                shape[i] = ref.apply(shape[i], e[2])
            want = sorted(p for p, _, _, _ in ref.leaves(shape[i], log.X))
            got = sorted(nxt()[1:] for _ in want)
            need(got == [(i, p) for p in want], "not every leaf of the updated tree was drawn exactly once after its update", got=got,
                 expected=want, tree_number=i, sweep=s, **d)
        e = nxt()
        need(e[0] == "sigma", "the noise level is not drawn once after all trees", got=e, **d)
    need(k == len(ev), "extra updates after the sweep", extra=ev[k:], **d)

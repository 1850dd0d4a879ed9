"""C24: prefetched draws."""
import copy
import itertools
import pickle
from fractions import Fraction

import numpy as np

from bartpy.samplers.leafnode import LeafNodeSampler
from bartpy.samplers.scalar import DiscreteSampler, NormalScalarSampler, UniformScalarSampler
from bartpy.samplers.unconstrainedtree.treemutation import get_tree_sampler

from mc.backends import roundtrip
from mc.core import Coverage, need
from mc.rng import Controller

THIRD = 1 / 3        # draws that need every bit of a float
KINDS = ["normal", "uniform", "discrete"]


class Source(Controller):
    """Every draw is new; requests are logged as (kind, number of draws)."""

    def __init__(self):
        super().__init__()
        self.n, self.requests, self.probas = 0, [], []

    def fresh(self):
        self.n += 1
        return self.n

    def record(self, name, *args):
        if name == "choice":
            self.probas.append((list(args[0]), args[2]))

    def z(self):
        return self.fresh() + THIRD

    def u(self):
        return (self.fresh() + THIRD) / 4194304.0

    def u_batch(self, size):
        return [self.u() for _ in range(size)]

    def pick_batch(self, n, size, weights):
        return [self.fresh() % n for _ in range(size)]

    def pick_value(self, values, weights, frame):
        return self.fresh() % len(values)

    def pick(self, n, weights=None, what=""):
        return self.fresh() % n


def make(kind, cache):
    if kind == "normal":
        return NormalScalarSampler(cache) if cache else NormalScalarSampler()
    if kind == "uniform":
        return UniformScalarSampler(cache) if cache else UniformScalarSampler()
    values = list(range(256 if cache else 4096))        # more than are ever drawn here
    return DiscreteSampler(values, None, cache) if cache else DiscreteSampler(values)


def serial(kind, v):
    """Which draw of the source a delivered value is."""
    v = float(v)
    if kind == "normal":
        n = round(v - THIRD)
        return n if n + THIRD == v else float(v)
    if kind == "uniform":
        n = round(v * 4194304.0 - THIRD)
        return n if (n + THIRD) / 4194304.0 == v else float(v)
    return int(v)


COPIES = {"deepcopy": copy.deepcopy, "copy": copy.copy, "pickle": lambda s: pickle.loads(pickle.dumps(s)), "worker": roundtrip}


def items(tier):
    q = tier == "quick"
    out = [{"kind": "single", "sampler": k, "caches": list(range(1, 9)) + [0] if q else list(range(1, 20)) + [0, 100], "calls": 20 if q else 60} for k in KINDS]
    for k in KINDS:
        for caches in itertools.product((1, 2, 3), repeat=2):
            out.append({"kind": "pair", "sampler": k, "caches": caches, "depth": 8 if q else 11})
        out.append({"kind": "trio", "sampler": k, "depth": 5 if q else 7})
        for c in COPIES:
            out.append({"kind": "copies", "sampler": k, "copy": c, "caches": [1, 2, 3, 0], "depth": 5 if q else 6})
    out += [{"kind": "long", "sampler": k, "cache": c, "calls": (150000 if q else 1000000) if k != "discrete" else (8000 if q else 40000)} for k in KINDS for c in (0, 37, 5000, 60000)]
    out.append({"kind": "mixed", "depth": 6 if q else 8})
    out.append({"kind": "discrete"})
    for c in ("deepcopy", "pickle", "worker"):
        out.append({"kind": "inside", "copy": c})
    return out


def bounds(tier):
    return {"cache sizes": "1-8 and the default (thorough: 1-19, 100)", "draws": "20 (thorough 60), for the default size two refills", "long": "150000 (1000000) draws of one sampler, 8000 (40000) of a discrete one, with caches of 37, 1000, 5000 and 60000", "interleavings": "all sequences of draws from two samplers up to %d, three up to %d" % ((8, 5) if tier == "quick" else (11, 7)),
            "copies": "taken at every point of every sequence of up to %d draws by %s" % (5 if tier == "quick" else 6, sorted(COPIES)), "discrete": "1-4 values, probabilities in steps of 1/4"}


def run(item):
    return globals()["run_" + item["kind"]](item)


def run_single(item):
    cov = Coverage()
    k = item["sampler"]
    for cache in item["caches"]:
        src = Source()
        with src:
            s = make(k, cache)
            used = []
            for i in range(item["calls"] if cache else 2050):
                before = src.n
                v = s.sample()
                new = src.n - before
                d = dict(sampler=k, cache=cache or "default", call=i)
                used.append(serial(k, v))
                if new:
                    need(len(used) - 1 == before, "more draws were requested before the previous ones were used", used=len(used) - 1, obtained=before, **d)
                need(len(set(used)) == len(used), "a draw was used twice", draw=used[-1], **d)
                need(used[-1] in range(1, src.n + 1), "a value was handed out that was not drawn", value=float(v), **d)
                cov.transitions += 1
            cov.states += src.n
        cov.executions += 1
    cov.sample({"sampler": k, "caches": item["caches"]})
    return cov


def run_long(item):
    """Many refills."""
    cov = Coverage()
    k, cache, n = item["sampler"], item["cache"], item["calls"]
    src = Source()
    with src:
        s = {"normal": NormalScalarSampler, "uniform": UniformScalarSampler}[k](*([cache] if cache else [])) if k != "discrete" else \
            DiscreteSampler(list(range(4 * n)), None, **({"cache_size": cache} if cache else {}))
        used = set()
        for i in range(n):
            before = src.n
            v = serial(k, s.sample())
            if src.n != before:
                need(i == before, "more draws were requested before the previous ones were used", sampler=k, cache=cache or "default", call=i)
            need(v not in used and 1 <= v <= src.n, "a draw was used twice" if v in used else "a value was handed out that was not drawn", sampler=k, cache=cache or "default", call=i)
            used.add(v)
    cov.states += src.n
    cov.transitions += n
    cov.executions += 1
    return cov


def sequence(k, samplers, seq, src, d):
    used = []
    for i in seq:
        used.append((i, serial(k, samplers[i].sample())))
    vals = [v for _, v in used]
    need(len(set(vals)) == len(vals), "a draw was handed out by two samplers or twice", used=used, **d)
    need(all(v in range(1, src.n + 1) for v in vals), "a value was handed out that was not drawn", used=used, **d)
    return used


def run_pair(item):
    cov = Coverage()
    k = item["sampler"]
    for seq in itertools.product((0, 1), repeat=item["depth"]):
        src = Source()
        with src:
            sequence(k, [make(k, c) for c in item["caches"]], seq, src, dict(sampler=k, caches=item["caches"], sequence=seq))
        cov.states += 1
        cov.executions += 1
        cov.transitions += len(seq)
    return cov


def run_trio(item):
    cov = Coverage()
    k = item["sampler"]
    for caches in ((1, 1, 1), (2, 1, 3), (0, 0, 0)):
        for seq in itertools.product((0, 1, 2), repeat=item["depth"]):
            src = Source()
            with src:
                sequence(k, [make(k, c) for c in caches], seq, src, dict(sampler=k, caches=caches, sequence=seq))
            cov.states += 1
            cov.executions += 1
            cov.transitions += len(seq)
    return cov


def run_copies(item):
    """Draw from the original, copy it, draw from both in every order; also copies of copies."""
    cov = Coverage()
    k, cp = item["sampler"], COPIES[item["copy"]]
    for cache in item["caches"]:
        for before in range(0, 4):
            for seq in itertools.product((0, 1, 2), repeat=item["depth"]):
                if cache == 0 and (before > 1 or seq[0] != 1):
                    continue
                src = Source()
                with src:
                    s = make(k, cache)
                    used = [serial(k, s.sample()) for _ in range(before)]
                    c = cp(s)
                    group = [s, c, None]
                    d = dict(sampler=k, cache=cache or "default", copied_by=item["copy"], drawn_before=before, sequence=seq)
                    for i in seq:
                        if group[i] is None:
                            group[i] = cp(group[1])
                        used.append(serial(k, group[i].sample()))
                    # a copy may share the pending draws with the original as long as none is used twice
                    need(len(set(used)) == len(used), "a copy repeats draws of the original", used=used, **d)
                    need(all(v in range(1, src.n + 1) for v in used), "a value was handed out that was not drawn", used=used, **d)
                cov.states += 1
                cov.executions += 1
                cov.transitions += len(seq)
    return cov


def run_mixed(item):
    """Normal, uniform and discrete samplers next to each other."""
    cov = Coverage()
    for seq in itertools.product((0, 1, 2), repeat=item["depth"]):
        src = Source()
        with src:
            ss = [make(k, 2) for k in KINDS]
            used = []
            for i in seq:
                used.append(serial(KINDS[i], ss[i].sample()))
            need(len(set(used)) == len(used), "a draw was handed out twice", sequence=seq, used=used)
            need(all(v in range(1, src.n + 1) for v in used), "a value was handed out that was not drawn", sequence=seq, used=used)
        cov.states += 1
        cov.executions += 1
        cov.transitions += len(seq)
    return cov


class Uni(Controller):
    """For implementations that invert a uniform draw: walks over a grid of uniforms."""

    def __init__(self):
        super().__init__()
        self.k = 0

    def u(self):
        self.k += 1
        return ((self.k - 1) % 4000 + 0.5) / 4000

    def u_batch(self, size):
        return [self.u() for _ in range(size)]


def run_discrete(item):
    """Distribution by counting: a batch of 4000 equally spaced uniforms, or the weights given to numpy's choice."""
    cov = Coverage()

    class Both(Uni):
        def __init__(self):
            super().__init__()
            self.asked = []

        def spread(self, n, w, size, start):
            w = [1.0 / n] * n if w is None else list(w)
            self.asked.append(w)
            out = []
            for j in range(size):
                x, acc, hit = ((start + j) % 4000 + 0.5) / 4000, 0.0, n - 1
                for i in range(n):
                    acc += w[i]
                    if x < acc:
                        hit = i
                        break
                out.append(hit)
            return out

        def pick_batch(self, n, size, weights):
            k, self.k = self.k, self.k + size
            return self.spread(n, weights, size, k)

        def pick_value(self, values, weights, frame):
            self.k += 1
            return self.spread(len(values), weights, 1, self.k - 1)[0]

        def pick(self, n, weights=None, what=""):
            self.k += 1
            return self.spread(n, weights, 1, self.k - 1)[0]

    def f():
        pass

    def g():
        pass
    menus = {1: ["a"], 2: [f, g], 3: [10, 20, 30], 4: ["p", "q", "r", "s"]}
    for n, values in menus.items():
        weights = [None]
        for w in itertools.product(range(5), repeat=n):
            if sum(w) == 4:
                weights.append([x / 4.0 for x in w])
        weights += {2: [[0.3, 0.7], [0.9, 0.1], [1 / 3, 2 / 3], [0.125, 0.875], [0.999, 0.001], [0.9966, 0.0034]], 3: [[0.2, 0.2, 0.6], [1 / 3, 1 / 3, 1 / 3], [0.005, 0.445, 0.55]]}.get(n, [])
        for w in weights:
            for cache in (1, 7, 4000, None):
                with Both() as src:
                    kw = {} if cache is None else {"cache_size": cache}
                    s = DiscreteSampler(values, w, **kw) if w is not None else DiscreteSampler(values, **kw)
                    total = 4000 if cache != 7 else 28000
                    got = [s.sample() for _ in range(total)]
                want = [1.0 / n] * n if w is None else w
                d = dict(values=n, probabilities=w, cache=cache)
                for v, p in zip(values, want):
                    c = sum(1 for x in got if x is v or x == v)
                    need(abs(c / total - p) <= 1.01 / 4000 * (n if n > 2 else 2), "the discrete sampler does not draw with its probabilities", value=str(v), got=c / total, expected=p, **d)
                cov.states += 1
                cov.executions += 1
                cov.transitions += total
    cov.sample({"values": [1, 2, 3, 4]})
    return cov


def run_inside(item):
    """The samplers inside a tree sampler and a leaf sampler: copies of the whole do not repeat draws either."""
    cov = Coverage()
    cp = COPIES[item["copy"]]
    for before, order in itertools.product(range(3), itertools.product((0, 1), repeat=6)):
        src = Source()
        with src:
            leaf = LeafNodeSampler(NormalScalarSampler(3))
            used = []

            def draw(s):
                # a leaf of one row with target 0, noise 1 and a flat prior: the value is the draw itself
                import math
                node = _leaf_parts()
                s.step(_Model(), node)
                used.append(round(node.current_value * math.sqrt(2.0) - THIRD, 6))
            for _ in range(before):
                draw(leaf)
            c = cp(leaf)
            for i in order:
                draw((leaf, c)[i])
        need(len(set(used)) == len(used), "a copy of a leaf sampler repeats draws", used=used, copied_by=item["copy"], drawn_before=before, order=order)
        cov.states += 1
        cov.executions += 1
        cov.transitions += 6
    return cov


def _leaf_parts():
    from bartpy.data import Data
    from bartpy.node import LeafNode
    from bartpy.split import Split
    return LeafNode(Split(Data(np.array([[1.0]]), np.array([0.0]))))


class _Sigma:
    def current_value(self):
        return 1.0


class _Model:
    """sigma = 1 and sigma_m = 1: a leaf of one row has variance 1/2."""
    sigma = _Sigma()
    sigma_m = 1.0
    n_trees = 1
    k = 0.5

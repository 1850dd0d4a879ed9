"""C07: detailed balance of the default tree update, for every pair of neighbouring trees."""
import itertools
import math

import numpy as np

from bartpy.data import Data
from bartpy.model import Model
from bartpy.samplers.unconstrainedtree import treemutation as module
from bartpy.samplers.unconstrainedtree.treemutation import UnconstrainedTreeMutationSampler
from bartpy.sigma import Sigma

from mc import real, ref
from mc.core import Chooser, Coverage, explore, need
from mc.rng import Controller
from checks import big, chain, common
from checks.c05 import Fixed

# sigma, alpha, beta, k, n_trees, p_grow, p_prune
MENU = [
    (1.0, 0.95, 2.0, 2.0, 1, 0.5, 0.5),
    (0.3, 0.5, 1.0, 1.0, 2, 0.7, 0.3),
    (2.5, 0.8, 0.5, 3.0, 5, 0.1, 0.9),
    (0.3, 0.95, 0.5, 3.0, 1, 0.1, 0.9),
    (1.0, 0.5, 2.0, 1.0, 5, 0.7, 0.3),
    (0.05, 0.3, 3.0, 2.0, 3, 0.5, 0.5),
]
FAR = [(1e-3, 0.95, 2.0, 2.0, 1, 0.5, 0.5), (60.0, 0.95, 2.0, 2.0, 200, 0.5, 0.5), (1e-3, 0.999, 12.0, 0.05, 1, 0.98, 0.02), (4e-3, 0.001, 0.0, 40.0, 3, 0.5, 0.5)]
ASSUMPTIONS = ["the proposal probabilities are those of the real proposer, enumerated over all draw outcomes; the acceptance probability is "
               "located by injecting uniform draws on both sides of the threshold that balances the two directions"]
LIMIT = 14


def items(tier):
    q = tier == "quick"
    out = []
    spec = [(2, 1, 1), (3, 1, 1), (4, 1, 1), (2, 2, 1), (3, 2, 1)] if q else [(2, 1, 1), (3, 1, 1), (4, 1, 1), (2, 2, 1), (3, 2, 1), (4, 2, 31)]
    for i, (c, s) in enumerate(common.datasets(tier, spec)):
        ms = range(len(MENU)) if not q or len(c[0]) < 3 else [i % len(MENU), (i + 2) % len(MENU), (i + 3) % len(MENU)]
        out += [{"cols": c, "shift": s, "params": MENU[j], "cap": None if len(c) == 1 else 80} for j in ms]
    for i, (c, cap) in enumerate(common.deep_datasets(tier)):
        for j in ([i % len(MENU)] if q else range(len(MENU))):
            out.append({"cols": c, "shift": 0, "params": MENU[j], "cap": 150 if q else 600})
    grid = list(itertools.product([0.3, 1.0, 2.5], [0.95, 0.5], [2.0, 0.5], [2.0, 1.0], [1, 2, 5], [(0.5, 0.5), (0.7, 0.3), (0.1, 0.9)]))
    for s, a, b, k, nt, (pg, pp) in grid:
        out.append({"cols": [[0, 1, 2], [0, 1, 0]], "shift": 1, "params": (s, a, b, k, nt, pg, pp), "cap": 9 if q else None})
    for c in ([0, 0, 1, 2], [0, 1, 1, 2], [0, 1, 2, 2], [1, 0, 2, 0]):          # values so near that rounding them would merge them
        out.append({"cols": [c], "shift": 3, "params": MENU[1], "cap": None})
    out.append({"kind": "default", "cols": [[0, 1, 2], [0, 1, 0]], "shift": 1, "params": MENU[0]})
    half = [m for m in MENU if m[5:] == (0.5, 0.5)][0]
    out += [{"cols": c, "shift": 1, "params": half, "cap": None, "bare": True} for c in ([[0, 1, 2]], [[0, 1, 1], [0, 1, 0]])]
    far = []
    for i, p in enumerate(FAR):
        far += [{"cols": c, "shift": s, "params": p, "cap": 30 if q else None, "scale": sc}
                for c, s in common.datasets(tier, [(2, 1, 1), (3, 1, 3), (4, 1, 25), (2, 2, 3)]) for sc in ((1e-3, 0.0) if p[0] < 0.01 else (1.0,))]
    out += [{"case": c, "params": MENU[(i + 1) % len(MENU)]} for i, c in enumerate(big.cases("quick") + [("huge", "mixed", 1)])]
    for i, it in enumerate(out):
        it["scale"] = [0.6, 0.1, 4.0, 0.0][i % 4]
    return out + far + chain.cases(tier)


def bounds(tier):
    return {"pairs": "every pair of neighbouring trees, both directions", "datasets": common.describe(tier), "large": "the last trees of %s with some of their neighbours" % big.describe("quick"),
            "chains": chain.describe(), "parameters (sigma, alpha, beta, k, n_trees, p_grow, p_prune)": [list(m) for m in MENU] + ["plus the full grid of 216 on one data set", "far from the usual: %s" % FAR]}


def run_default(item, X):
    """The update as shipped, with its own uniform draws: accepts just below and refuses just above the balancing threshold."""
    cov = Coverage()
    n = len(X)
    r = ref.targets(n, 0)
    order, hist = ref.all_trees(X, cap=6)
    junk = real.new_tree(X, r)
    for pg, pp in ((0.5, 0.5), (0.7, 0.3)):
        for t in order:
            pt = ref.proposal_distribution(t, X, pg, pp)
            for mv in sorted(pt, key=str):
                t2 = ref.apply(t, mv)
                rev = ("prune", mv[1]) if mv[0] == "grow" else ("grow", mv[1]) + sub_of(t, mv[1])[:2]
                back = ref.proposal_distribution(t2, X, pg, pp)
                sm = 0.5 / 2.0
                a = (ref.log_posterior(t2, X, r, 1.0, sm, 0.95, 2.0) + math.log(back[rev])
                     - ref.log_posterior(t, X, r, 1.0, sm, 0.95, 2.0) - math.log(pt[mv]))
                cov.states += 1
                for u, want in ((math.exp(min(a, 0) - 1e-6), True), (math.exp(a + 1e-6), False)):
                    if u >= 1:
                        continue
                    got = shipped(X, r, hist[t], mv, pg, pp, u, junk)
                    cov.executions += 1
                    cov.transitions += 1
                    need(got is None or got == want, "the shipped update does not accept with the balancing probability", tree=t, move=mv, draw=u,
                         expected=want, log_ratio=a, data=X.tolist(), p=(pg, pp))
                    if got is not None:
                        cov.add("shipped_updates_decided")
    return cov


def shipped(X, r, h, mv, pg, pp, u, junk):
    """Run get_tree_sampler's own step so that it proposes mv and sees the uniform draw u; None if mv was not reached."""
    for ch, out in explore(lambda c: shipped_once(c, X, r, h, pg, pp, u, junk), limit=LIMIT):
        if not ch.truncated and out[0] == mv:
            return out[1]
    return None


class Spy:
    def __init__(self, inner):
        self.inner, self.last = inner, None

    def propose(self, tree):
        self.last = self.inner.propose(tree)
        return self.last


def shipped_once(ch, X, r, h, pg, pp, u, junk):
    s = common.tree_sampler(module, pg, pp)
    sg = Sigma(0.001, 0.001, 1.0)
    inner = s.proposer
    throw = Model(Data(X.copy(), r.copy()), sg, trees=[real.new_tree(X, r)])
    with Controller(pick=None, u=u, log=True) as c:
        # use up uniform draws cached before, until a fresh request is served with u
        for _ in range(100000):
            if any(x[0] == "uniform" for x in c.calls):
                break
            s.step(throw, throw.trees[0])
    tree = real.build(X, r, h)
    idx = real.index(tree)
    model = Model(Data(X.copy(), r.copy()), sg, trees=[tree])
    spy = Spy(common.tree_sampler(module, pg, pp).proposer)
    s.proposer = spy
    with Controller(pick=ch.pick, u=u, retry=True):
        got = s.step(model, tree)
    s.proposer = inner
    at = {id(nd): p for p, nd in idx.items()}
    m = spy.last
    mv = ("prune", at[id(m.existing_node)]) if m.kind == "prune" else ("grow", at[id(m.existing_node)]) + real.cond_of(m.updated_node)
    return mv, got is not None


def run(item):
    common.BARE[0] = bool(item.get("bare"))
    if "chain" in item:
        return chain.run(item, Coverage(), "tree")
    if item.get("kind") == "default":
        return run_default(item, ref.matrix(item["cols"], item["shift"]))
    cov = Coverage()
    if "case" in item:
        X, _ = big.data(item["case"][0])
    else:
        X = ref.matrix(item["cols"], item["shift"])
    n = len(X)
    sigma, alpha, beta, k, nt, pg, pp = item["params"]
    y0 = ref.targets(n, 1)
    r = ref.targets(n, 0) * item.get("scale", 0.6)
    if "case" in item:
        # one deep tree and a choice of its neighbours
        h = big.history(X, *item["case"][1:])
        top = h[-1][1]
        hist = {top: tuple(m for m, _ in h)}
        mv = ref.moves(top, X)
        grow = [m for m in mv if m[0] == "grow"]
        for m in grow[::max(1, len(grow) // 6)] + [m for m in mv if m[0] == "prune"][:6]:
            hist[ref.apply(top, m)] = hist[top] + (m[:4],)
        order = [top]
    else:
        order, hist = ref.all_trees(X, cap=item.get("cap"))
    sm = 0.5 / (k * math.sqrt(nt))
    extra = [real.new_tree(X, y0) for _ in range(nt - 1)]
    lp, q = {}, {}

    def make(t):
        tree = real.build(X, y0, hist[t])
        tree.update_y(r.copy())
        sg = Sigma(0.001, 0.001, 1.0)
        sg.set_value(sigma)
        return tree, Model(Data(X.copy(), r.copy()), sg, trees=[tree] + extra, alpha=alpha, beta=beta, k=k)

    def logpost(t):
        if t not in lp:
            lp[t] = ref.log_posterior(t, X, r, sigma, sm, alpha, beta)
        return lp[t]

    def proposals(t):
        """Real proposal probabilities of tree t: move -> (probability, choices of one run, exact?)."""
        if t not in q:
            if t not in hist:
                return None
            tree, _ = make(t)
            idx = real.index(tree)
            out, lost = {}, 0.0

            def one(ch):
                s = common.tree_sampler(module, pg, pp)
                with Controller(pick=ch.pick, u_grid=60, retry=True):
                    return s.proposer.propose(tree)
            for ch, m in explore(one, limit=LIMIT):
                if ch.truncated:
                    lost += ch.weight
                    continue
                if m is None:
                    continue
                mv = real.move_of(tree, m, idx)
                p0 = out.get(mv, (0.0, list(ch.trace)))
                out[mv] = (p0[0] + ch.weight, p0[1])
            q[t] = (out, lost)
        return q[t]

    def accepts(t, trace, u):
        tree, model = make(t)
        base = common.tree_sampler(module, pg, pp)
        s = UnconstrainedTreeMutationSampler(base.proposer, base.likihood_ratio, scalar_sampler=Fixed(u))
        ch = Chooser(trace)
        with Controller(pick=ch.pick, u_grid=60, retry=True):
            m = s.step(model, tree)
        cov.executions += 1
        cov.transitions += 1
        return m is not None

    def threshold(t, trace):
        """log of the acceptance probability, assuming that smaller draws are accepted."""
        if accepts(t, trace, 1 - 1e-13):
            return 0.0
        lo, hi = -690.0, 0.0
        if not accepts(t, trace, math.exp(lo)):
            return -math.inf
        for _ in range(50):
            mid = (lo + hi) / 2
            if accepts(t, trace, math.exp(mid)):
                lo = mid
            else:
                hi = mid
        return lo

    for t in order:
        cov.states += 1
        pt, lost = proposals(t)
        for mv, (p, trace) in pt.items():
            t2 = ref.apply(t, mv)
            back = proposals(t2)
            if back is None:
                continue
            rev = ("prune", mv[1]) if mv[0] == "grow" else ("grow", mv[1], sub_of(t, mv[1])[0], sub_of(t, mv[1])[1])
            d = dict(tree=t, move=mv, data=X.tolist(), residuals=r.tolist(), params=item["params"])
            need(rev in back[0], "a move cannot be taken back", reverse=rev, **d)
            pf, pb = p, back[0][rev][0]
            if lost or back[1]:        # a retry loop was cut off: use the distribution that C03 establishes
                cov.truncated += 1
                pf, pb = ref.proposal_distribution(t, X, pg, pp)[mv], ref.proposal_distribution(t2, X, pg, pp)[rev]
            log_ratio = logpost(t2) + math.log(pb) - logpost(t) - math.log(pf)
            cov.outcomes.add(round(log_ratio, 9))
            a = min(0.0, log_ratio)
            if a > -690:
                ok = accepts(t, trace, min(math.exp(a - 1e-7), 1 - 1e-13))
                if ok and a < -2e-7:
                    ok = not accepts(t, trace, math.exp(a + 1e-7))
            else:
                ok = not accepts(t, trace, math.exp(-600))
            if not ok:
                # not the Metropolis-Hastings rule for this pair: measure both acceptance probabilities and compare the flows
                f, b = threshold(t, trace), threshold(t2, back[0][rev][1])
                need(abs((f - b) - log_ratio) < 1e-5, "detailed balance does not hold between two trees", log_acceptance=f,
                     log_acceptance_of_reverse=b, expected_difference=log_ratio, **d)
    cov.sample({"data": X.tolist(), "params": item["params"], "trees": len(order)})
    return cov


def sub_of(t, path):
    for p in path:
        t = t[2 + p]
    return t

"""C29: detailed balance of the oblivious sampler's level moves."""
import math

import numpy as np

from bartpy.data import Data
from bartpy.model import Model
from bartpy.node import DecisionNode
from bartpy.samplers.oblivioustrees import treemutation as shipped
from bartpy.samplers.oblivioustrees.treemutation import UnconstrainedTreeMutationSampler
from bartpy.sigma import Sigma

from mc import real, ref
from mc.core import Chooser, Coverage, explore, need
from mc.rng import Controller
from checks import big, chain, common
from checks.c05 import Fixed
from checks.c07 import FAR, MENU
from checks.c22 import Decided, Scripted, form

ASSUMPTIONS = ["the proposal probabilities are those of the real proposer, enumerated over all draw outcomes; the acceptance probability is "
               "located by injecting uniform draws on both sides of the threshold that balances the two directions"]
LIMIT = 60


def items(tier):
    q = tier == "quick"
    out = []
    spec = [(2, 1, 1), (3, 1, 1), (4, 1, 1), (2, 2, 1), (3, 2, 3 if q else 1), (2, 3, 5), (4, 2, 331 if q else 61)]
    for i, (c, s) in enumerate(common.datasets(tier, spec)):
        ms = [i % len(MENU), (i + 3) % len(MENU)] if q else range(len(MENU))
        out += [{"cols": c, "shift": s, "params": MENU[j], "cap": 40 if q else 200} for j in ms]
    for i, p in enumerate(FAR):
        out += [{"cols": c, "shift": s, "params": p, "cap": 20, "scale": sc}
                for c, s in common.datasets(tier, [(3, 1, 3), (4, 1, 25), (2, 2, 3)]) for sc in ((1e-3, 0.0) if p[0] < 0.01 else (1.0,))]
    for i, (c, s) in enumerate([([0, 1, 2, 3, 4], "GG"), ([0, 0, 1, 2, 3, 3], "GGG"), ([0, 1, 1, 1, 2, 3, 4, 5], "GGGG")]):
        out.append({"cols": [c], "shift": i, "params": MENU[(2 * i) % len(MENU)], "script": s, "seed": i})
    for i, (n, s) in enumerate([("binary", "GGGG"), ("tall", "GGGGGPGG"), ("spine", "GGGGG"), ("near", "GGG"), ("huge", "GG")]):
        out.append({"name": n, "params": MENU[i % len(MENU)], "script": s, "seed": i})
    half = [m for m in MENU if m[5:] == (0.5, 0.5)][0]
    out += [{"cols": c, "shift": 1, "params": half, "cap": 40, "bare": True} for c in ([[0, 1, 2]], [[0, 1, 1], [0, 1, 0]])]
    out += chain.cases(tier)
    for i, it in enumerate(out):
        it.setdefault("scale", [0.6, 0.1, 4.0, 0.0][i % 4])
    return out


def bounds(tier):
    return {"pairs": "every pair of trees one level apart reachable from the single leaf, both directions (up to %d trees a data set)" % (40 if tier == "quick" else 200),
            "datasets": "all covariate orders of 2-4 rows x 1 column, 2x2, some of 3x2, 2x3 and 4x2", "large": "scripted paths on binary, tall, spine, near, huge with a few neighbours",
            "chains": chain.describe(), "parameters (sigma, alpha, beta, k, n_trees, p_grow, p_prune)": [list(m) for m in MENU + FAR]}


def canon(tree, X):
    """(number of levels, splits): the tree without the levels below leaves that cannot be split."""
    f = form(tree, X)

    def rec(path):
        node, rows = f[path]
        if type(node) != DecisionNode or not ref.splittable(X, rows):
            return None
        return real.cond_of(node) + (rec(path + (0,)), rec(path + (1,)))
    return max(len(p) for p in f), rec(())


def shape(state, X):
    """(can be grown, can be pruned) of a state."""
    levels, t = state
    return any(ref.splittable(X, rows) for _, _, rows, d in ref.leaves(t, X)), levels > 0


def up(state, X):
    """The tree one level up."""
    levels, t = state

    def cut(t, left):
        return None if t is None or left == 0 else t[:2] + (cut(t[2], left - 1), cut(t[3], left - 1))
    return levels - 1, cut(t, levels - 1)


def after(s1, mutations, tree, X):
    """The state after level mutations."""
    levels, t = s1
    if mutations[0].kind == "prune":
        return up(s1, X)
    at = {id(nd): rows for nd, rows in form(tree, X).values()}
    rules = {}
    for m in mutations:
        rows = at[id(m.existing_node)]
        if ref.splittable(X, rows):
            rules[rows] = real.cond_of(m.updated_node)

    def put(t, rows):
        if t is None:
            return rules[rows] + (None, None) if rows in rules else None
        v, val = t[:2]
        return (v, val, put(t[2], tuple(i for i in rows if X[i, v] <= val)), put(t[3], tuple(i for i in rows if X[i, v] > val)))
    return levels + 1, put(t, tuple(range(len(X))))


def expected_proposal(s1, s2, X, pg, pp):
    """Probability that a level move from s1 to s2 is proposed."""
    grow, prune = shape(s1, X)
    if s2[0] < s1[0]:
        return pp if grow else 1.0
    out = pg if prune else 1.0
    new = {p: t for p, t, _, _ in ref.walk(s2[1], X)}
    for path, _, rows, _ in ref.leaves(s1[1], X):
        g = [m[2] for m in ref.grow_moves(X, rows) if new[path] is not None and m[:2] == new[path][:2]]
        if ref.splittable(X, rows):
            out *= g[0]
    return out


def run(item):
    common.BARE[0] = bool(item.get("bare"))
    cov = Coverage()
    if "chain" in item:
        return chain.run(item, cov, "level")
    if "name" in item:
        X, _ = big.data(item["name"])
    else:
        X = ref.matrix(item["cols"], item["shift"])
    n = len(X)
    sigma, alpha, beta, k, nt, pg, pp = item["params"]
    y0, r = ref.targets(n, 1), ref.targets(n, 0) * item["scale"]
    sm = 0.5 / (k * math.sqrt(nt))
    extra = [real.new_tree(X, y0) for _ in range(nt - 1)]
    lp = {}

    def logpost(s):
        if s not in lp:
            lp[s] = ref.log_posterior(s[1], X, r, sigma, sm, alpha, beta)
        return lp[s]

    def sampler(accept=None, u=None):
        base = common.tree_sampler(shipped, pg, pp)
        return UnconstrainedTreeMutationSampler(base.proposer, Decided(True) if accept else base.likihood_ratio, Fixed(0.5 if accept else u))

    def start(hist):
        """A tree to which the level moves with these choices were applied."""
        tree = real.new_tree(X, y0)
        tree.update_y(r.copy())
        sg = Sigma(0.001, 0.001, 1.0)
        sg.set_value(sigma)
        model = Model(Data(X.copy(), r.copy()), sg, trees=[tree] + extra, alpha=alpha, beta=beta, k=k)
        for trace in hist:
            with Controller(pick=Chooser(trace).pick if isinstance(trace, list) else trace().pick, u_grid=60, retry=True):
                sampler(True).step(model, tree)
        return model, tree

    def accepts(hist, trace, u):
        model, tree = start(hist)
        with Controller(pick=Chooser(trace).pick if isinstance(trace, list) else trace().pick, u_grid=60, retry=True):
            got = sampler(u=u).step(model, tree)
        cov.executions += 1
        cov.transitions += 1
        return bool(got)

    def threshold(hist, trace):
        if accepts(hist, trace, 1 - 1e-13):
            return 0.0
        lo, hi = -690.0, 0.0
        if not accepts(hist, trace, math.exp(lo)):
            return -math.inf
        for _ in range(50):
            mid = (lo + hi) / 2
            lo, hi = (mid, hi) if accepts(hist, trace, math.exp(mid)) else (lo, mid)
        return lo

    def judge(s1, s2, hist, trace, back_hist, back_trace, pf, pb):
        d = dict(tree=s1, neighbour=s2, data=X.tolist() if n < 9 else item["name"], residuals=r.tolist() if n < 9 else None, params=item["params"])
        log_ratio = logpost(s2) + math.log(pb) - logpost(s1) - math.log(pf)
        cov.outcomes.add(round(log_ratio, 9))
        a = min(0.0, log_ratio)
        if a > -690:
            tol = 1e-7 * max(1.0, abs(a) * 1e-2)
            ok = accepts(hist, trace, min(math.exp(a - tol), 1 - 1e-13))
            if ok and a < -2 * tol:
                ok = not accepts(hist, trace, math.exp(a + tol))
        else:
            ok = not accepts(hist, trace, math.exp(-600))
        if not ok:
            f, b = threshold(hist, trace), threshold(back_hist, back_trace)
            need(abs((f - b) - log_ratio) < 1e-5 * max(1.0, abs(log_ratio)), "detailed balance does not hold between two trees one level apart", log_acceptance=f,
                 log_acceptance_of_reverse=b, expected_difference=log_ratio, **d)

    if "script" in item:
        return run_script(item, X, start, judge, cov, pg, pp)

    q = {}

    def proposals(s, hist):
        """Real proposal probabilities: next state -> (probability, choices of one run)."""
        if s not in q:
            out, lost = {}, 0.0

            def one(ch):
                model, tree = start(hist)
                with Controller(pick=ch.pick, u_grid=60, retry=True):
                    res = sampler(True).step(model, tree)
                return canon(tree, X) if res else None
            for ch, s2 in explore(one, limit=LIMIT):
                if ch.truncated:
                    lost += ch.weight
                elif s2 is not None:
                    p0 = out.get(s2, (0.0, list(ch.trace)))
                    out[s2] = (p0[0] + ch.weight, p0[1])
            q[s] = (out, lost)
        return q[s]

    first = (0, None)
    hists, order = {first: ()}, [first]
    for s in order:
        for s2, (_, trace) in proposals(s, hists[s])[0].items():
            if s2 not in hists and len(order) < item["cap"]:
                hists[s2] = hists[s] + (trace,)
                order.append(s2)
    for s in order:
        cov.states += 1
        pt, lost = proposals(s, hists[s])
        for s2, (p, trace) in pt.items():
            if s2 not in hists:
                continue
            back, lost2 = proposals(s2, hists[s2])
            need(s in back, "a level move cannot be taken back", tree=s, neighbour=s2, data=X.tolist())
            pf, pb = p, back[s][0]
            if lost or lost2:
                cov.truncated += 1
                pf, pb = expected_proposal(s, s2, X, pg, pp), expected_proposal(s2, s, X, pg, pp)
            judge(s, s2, hists[s], trace, hists[s2], back[s][1], pf, pb)
    cov.sample({"data": X.tolist(), "params": item["params"], "trees": len(order)})
    return cov


class Kind(Scripted):
    """One level move of the given kind."""

    def __init__(self, kind, seed):
        super().__init__([kind], seed)
        self.k = 0


def run_script(item, X, start, judge, cov, pg, pp):
    """Along one path of many levels: each move with its reverse, and the moves up and down from the last tree."""
    hist, states = (), [canon(start(())[1], X)]
    for i, kind in enumerate(item["script"]):
        step = (lambda kind=kind, i=i: Kind(kind, item["seed"] * 50 + i))
        s1 = states[-1]
        nxt = hist + (step,)
        s2 = canon(start(nxt)[1], X)
        if s2 == s1 or (kind == "G" and s2[0] < s1[0]):      # nothing left to grow
            break
        undo = (lambda i=i: Kind("P", 7))
        if kind == "G":
            need(up(s2, X) == s1, "growing a level changed the levels above", tree=s1, neighbour=s2)
            judge(s1, s2, hist, step, nxt, undo, expected_proposal(s1, s2, X, pg, pp), expected_proposal(s2, s1, X, pg, pp))
            judge(s2, s1, nxt, undo, hist, step, expected_proposal(s2, s1, X, pg, pp), expected_proposal(s1, s2, X, pg, pp))
        cov.states += 1
        hist, states = nxt, states + [s2]
    cov.sample({"script": item["script"], "levels": states[-1][0]})
    return cov

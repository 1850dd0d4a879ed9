"""C03: the default proposer's exact distribution over moves, for every reachable tree."""
import numpy as np

from bartpy.data import Data
from bartpy.model import Model
from bartpy.node import DecisionNode, LeafNode
from bartpy.samplers.unconstrainedtree import treemutation as shipped
from bartpy.samplers.unconstrainedtree.treemutation import get_tree_sampler
from bartpy.sigma import Sigma

from mc import real, ref
from mc.core import Coverage, explore, need
from mc.rng import Controller
from checks import big, common

PAIRS = [(0.5, 0.5), (0.7, 0.3), (0.1, 0.9)]
LIMIT = 14
ASSUMPTIONS = ["draws come from numpy.random or random; every discrete draw is enumerated with its weight, uniform draws on a "
               "60 cell grid", "a loop that repeats an identical draw is rejection sampling (the rejected values are not drawn again), "
               "which does not change the distribution of the accepted value"]


def items(tier):
    pairs = PAIRS
    out = []
    for i, (c, s) in enumerate(common.datasets(tier)):
        out.append({"cols": c, "shift": s, "pairs": pairs if len(c[0]) * len(c) <= 4 or tier != "quick" else [pairs[i % 3]]})
    out += [{"cols": c, "shift": 0, "cap": cap if cap is None else cap // 2, "pairs": [pairs[i % 3]]}
            for i, (c, cap) in enumerate(common.deep_datasets(tier))]
    out += [{"cols": c, "shift": 1, "pairs": [(0.5, 0.5)], "bare": True} for c in ([[0, 1, 2]], [[0, 1, 1], [0, 1, 0]])]
    out += [{"kind": "spin", "asks": k} for k in (1, 5, 19, 25, 64, 200, 1500)]
    out += [{"case": c, "pairs": [pairs[i % 3]]} for i, c in enumerate((big.cases("quick") if tier == "quick" else big.cases(tier)[:13]))]
    return out


def bounds(tier):
    return {"datasets": common.describe(tier), "probabilities (grow, prune)": PAIRS,
            "large": big.describe("quick"), "trees": "all reachable (breadth first up to the cap on the larger data)", "rejections": "the largest value drawn up to 1500 times in a row", "draw outcomes": "all, at most %d choice points" % LIMIT}


def snapshot(tree):
    return [(id(n), n.depth, id(n.left_child), id(n.right_child), n.current_value if type(n) == LeafNode else None,
             tuple(real.rows_of(n))) for n in tree.nodes]


def run(item):
    common.BARE[0] = bool(item.get("bare"))
    cov = Coverage()
    if item.get("kind") == "spin":
        return run_spin(item["asks"], cov)
    if "case" in item:
        name, style, steps = item["case"]
        X, y = big.data(name)
        h = big.history(X, style, steps)
        order = [h[j][1] for j in sorted({len(h) // 2, len(h) - 1})]
        order = ([None] if name == "broad" else []) + order
        hist = {h[j][1]: tuple(m for m, _ in h[:j + 1]) for j in range(len(h))}
        hist[None] = ()
    else:
        X = ref.matrix(item["cols"], item["shift"])
        y = ref.targets(len(X))
        order, hist = ref.all_trees(X, cap=item.get("cap"))
    for t in order:
        tree = real.build(X, y, hist[t])
        for j, leaf in enumerate(tree.leaf_nodes):
            leaf.set_value(j + 0.5)
        before = snapshot(tree)
        idx = real.index(tree)
        cov.states += 1
        for pg, pp in item["pairs"]:
            exp = ref.proposal_distribution(t, X, pg, pp)
            if not exp:
                no_move(X, y, pg, pp, cov)
                continue
            got, lost = {}, 0.0

            def one(ch):
                s = common.tree_sampler(shipped, pg, pp)
                with Controller(pick=ch.pick, u_grid=60, retry=True):
                    return s.proposer.propose(tree)
            for ch, m in explore(one, limit=LIMIT):
                cov.executions += 1
                cov.transitions += len(ch.trace)
                need(snapshot(tree) == before, "proposing changed the tree", tree=t, data=X.tolist(), choices=ch.choices)
                if ch.truncated:
                    cov.truncated += 1
                    lost += ch.weight
                    continue
                need(m is not None, "no move was proposed although one exists", tree=t, data=X.tolist(), choices=ch.choices)
                mv = check_move(tree, m, idx, X, y, t, ch)
                got[mv] = got.get(mv, 0.0) + ch.weight
                cov.outcomes.add(hash((str(t), mv)))
            for mv in got:
                need(mv in exp, "a proposal is not an allowed move", move=mv, tree=t, data=X.tolist())
            for mv, p in exp.items():
                g = got.get(mv, 0.0)
                need(p - lost - 1e-9 <= g <= p + 1e-9, "a move is proposed with the wrong probability", move=mv, got=g, expected=p,
                     tree=t, data=X.tolist(), p=(pg, pp))
    cov.sample({"data": X.tolist(), "trees": len(order), "moves of the last": len(ref.moves(order[-1], X))})
    return cov


def check_move(tree, m, idx, X, y, t, ch):
    d = dict(tree=t, data=X.tolist(), choices=ch.choices)
    need(m.kind in ("grow", "prune"), "unknown kind of move", kind=m.kind, **d)
    mv = real.move_of(tree, m, idx)
    node = idx[mv[1]]
    rows = real.rows_of(node)
    if m.kind == "grow":
        need(type(node) == LeafNode, "grow of a node that is not a leaf", move=mv, **d)
        u = m.updated_node
        need(type(u) == DecisionNode and type(u.left_child) == LeafNode and type(u.right_child) == LeafNode,
             "a grow must produce a decision node with two leaves", move=mv, **d)
        l = tuple(i for i in rows if X[i, mv[2]] <= mv[3])
        r = tuple(i for i in rows if X[i, mv[2]] > mv[3])
        need(l and r, "degenerate split proposed", move=mv, **d)
        need((real.rows_of(u), real.rows_of(u.left_child), real.rows_of(u.right_child)) == (rows, l, r),
             "a proposed split does not divide the rows of the leaf", move=mv, **d)
        need(u.depth == node.depth and u.left_child.depth == u.right_child.depth == node.depth + 1, "wrong depth of proposed nodes", move=mv, **d)
        for c, rr in ((u.left_child, l), (u.right_child, r)):
            real.stats_ok(c, X, y, rr, ["count", "sum"], move=mv, **d)
    else:
        need(type(node) == DecisionNode, "prune of a leaf", move=mv, **d)
        need(type(m.updated_node) == LeafNode and real.rows_of(m.updated_node) == rows and m.updated_node.depth == node.depth,
             "a prune must give a leaf with the node's rows", move=mv, **d)
        real.stats_ok(m.updated_node, X, y, rows, ["count", "sum"], move=mv, **d)
    return mv


class Stubborn(Controller):
    """Answers a draw among the values of a column with its largest value for a number of times, then with another."""

    def __init__(self, asks, then, bottom):
        Controller.__init__(self, u=0.25)
        self.asks, self.then, self.bottom = asks, then, bottom
        self.seen, self.last = 0, None

    def pick_value(self, values, weights, frame):
        if values.dtype == object or len(values) < 3 or float(np.max(values)) != self.bottom:
            return 0
        self.seen += 1
        v = self.bottom if self.seen <= self.asks else self.then
        self.last = v
        return int(np.nonzero(np.asarray(values, dtype=float) == v)[0][0])


def run_spin(asks, cov):
    """However often the largest value comes up, the value finally used is one that was drawn, and not that one."""
    for rows in ([0, 1, 5.5, 5.5], [5.5, 5.5, 5.5, 5.5, 5.5, 5.5, 3, 0], [2, 5.5, 0, 1, 3, 4]):
        X = np.array(rows, dtype=float).reshape(-1, 1)
        y = ref.targets(len(X))
        for then in sorted(set(rows))[:-1]:
            tree = real.new_tree(X, y)
            c = Stubborn(asks, float(then), 5.5)
            with c:
                m = get_tree_sampler(1.0, 1e-300).proposer.propose(tree)
            d = dict(data=rows, largest_drawn=asks, then=then)
            need(m is not None and m.kind == "grow", "no grow was proposed although one exists", **d)
            mv = real.move_of(tree, m, real.index(tree))
            if c.seen > asks:           # the code drew among all values of the column
                need(mv[3] == then, "the proposed value is not the one that was drawn", got=mv[3], **d)
            need(mv[3] < 5.5, "degenerate split proposed", got=mv[3], **d)
            need(c.last is None or c.last == mv[3], "the proposed value is not the last one that was drawn", got=mv[3], last=c.last, **d)
            cov.states += 1
            cov.executions += 1
            cov.transitions += max(1, c.seen)
    return cov


def no_move(X, y, pg, pp, cov):
    data = Data(X.copy(), y.copy())
    model = Model(data, Sigma(1.0, 1.0, 1.0), n_trees=2, initializer=None)

    def one(ch):
        s = common.tree_sampler(shipped, pg, pp)
        tree = model.trees[0]
        before = snapshot(tree)
        with Controller(pick=ch.pick, u_grid=None, u=0.25, retry=True):
            for _ in range(3):
                m = s.step(model, tree)
                need(m is None, "an update reported a move where none exists", data=X.tolist())
        need(snapshot(tree) == before, "an update changed a tree that has no move", data=X.tolist())
        return True
    for ch, ok in explore(one, limit=LIMIT):
        cov.executions += 1
        cov.transitions += 1

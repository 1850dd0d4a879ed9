"""C04: structure of a tree under every sequence of moves."""
from bartpy.mutation import GrowMutation, PruneMutation
from bartpy.node import DecisionNode, LeafNode, split_node
from bartpy.samplers.unconstrainedtree.treemutation import UnconstrainedTreeMutationSampler
from bartpy.tree import Tree, mutate

from mc import real, ref, walk
from mc.core import Coverage, Violation, need
from checks import big, common


def items(tier):
    out = [{"cols": c, "shift": s, "cap": 400 if tier == "quick" else 3000, "depth": 6 if tier == "quick" else 9}
           for c, s in common.datasets(tier, [(1, 1, 1), (2, 1, 1), (3, 1, 1), (4, 1, 1), (2, 2, 1), (3, 2, 4 if tier == "quick" else 1)])]
    for c, cap in common.deep_datasets(tier):
        out.append({"cols": c, "shift": 0, "cap": 500 if tier == "quick" else 6000, "depth": 8})
        out.append({"cols": c, "shift": 0, "order": "dfs", "cap": 300 if tier == "quick" else 4000, "depth": 12})
    out += [{"kind": "unseen", "cols": c, "shift": s, "cap": 40 if tier == "quick" else 400, "cap4": 3 if tier == "quick" else 25}
            for c, s in common.datasets(tier, [(2, 1, 1), (3, 1, 1), (4, 1, 5 if tier == "quick" else 1), (2, 2, 1), (3, 2, 19 if tier == "quick" else 3)])]
    out += [{"kind": "big", "case": c} for c in big.cases(tier)]
    out += [{"kind": "sampler", "cols": c, "depth": d, "cap": cap} for c, d, cap in walk.menu(tier)]
    return out


def bounds(tier):
    return {"sequences": "all move sequences, deduplicated on tree plus node list order, up to depth 6-12 and the cap of states per data set",
            "datasets": common.describe(tier), "unseen": "every 2 (4 from a few states) moves applied to an inspected tree without inspecting it in between", "large": big.describe(tier), "sampler": "every sequence of up to 3-6 accepted updates of the default sampler", "disallowed moves": "every leaf and decision node of every state"}


def order_key(tree, idx):
    at = {id(n): p for p, n in idx.items()}
    return tuple(at[id(n)] for n in tree.nodes)


def run(item):
    if item.get("kind") == "sampler":
        return run_sampler(item)
    if item.get("kind") == "big":
        return run_big(item)
    if item.get("kind") == "unseen":
        return run_unseen(item)
    cov = Coverage()
    X = ref.matrix(item["cols"], item["shift"])
    y = ref.targets(len(X))
    root = real.new_tree(X, y)
    seen = set()
    queue = [(None, ())]
    dfs = item.get("order") == "dfs"
    while queue:
        t, hist = queue.pop() if dfs else queue.pop(0)
        tree = real.build(X, y, hist)
        d = dict(history=hist, data=X.tolist())
        try:
            c = real.well_formed(tree, X)
        except Violation as v:
            v.detail.update(d)
            raise
        need(c == t, "moves gave another tree", got=c, expected=t, **d)
        idx = real.index(tree)
        key = (t, order_key(tree, idx))
        if key in seen:
            continue
        seen.add(key)
        cov.states += 1
        cov.outcomes.add(hash(str(t)))
        disallowed(tree, idx, X, y, d, cov)
        for m in ref.moves(t, X):
            cov.transitions += 1
            t2 = ref.apply(t, m)
            if m[0] == "grow":
                undo(X, y, hist, m, t, d)
                cov.executions += 1
            if len(hist) < item["depth"] and len(seen) + len(queue) < item["cap"]:
                queue.append((t2, hist + (m[:4],)))
            else:
                t3 = real.build(X, y, hist + (m[:4],))
                try:
                    need(real.well_formed(t3, X) == t2, "moves gave another tree", got=real.canon(t3), expected=t2)
                except Violation as v:
                    v.detail.update(d, last=m)
                    raise
            cov.executions += 1
    cov.sample({"data": X.tolist(), "states": len(seen)})
    return cov


def run_unseen(item):
    """Lists asked for before and after, but not between, several moves."""
    cov = Coverage()
    X = ref.matrix(item["cols"], item["shift"])
    y = ref.targets(len(X))
    order, hist = ref.all_trees(X, cap=item["cap"])
    for k, t in enumerate(order):
        cov.states += 1
        depth = 4 if k < item["cap4"] else 2

        def rec(t2, ms):
            if len(ms) == 2 or len(ms) == depth:
                tree = real.build(X, y, hist[t])
                try:
                    real.well_formed(tree, X)
                    for m in ms:
                        real.do(tree, m[:4])
                    need(real.well_formed(tree, X) == t2, "moves gave another tree")
                except Violation as v:
                    v.detail.update(data=X.tolist(), history=hist[t], then=ms)
                    raise
                cov.executions += 1
            if len(ms) < depth:
                for m in ref.moves(t2, X):
                    cov.transitions += 1
                    rec(ref.apply(t2, m), ms + (m,))
        rec(t, ())
    cov.sample({"data": X.tolist(), "states": len(order)})
    return cov


def run_big(item):
    cov = Coverage()
    name, style, steps = item["case"]
    X, y = big.data(name)
    tree = real.new_tree(X, y)
    done = []
    try:
        for m, t in big.history(X, style, steps):
            real.do(tree, m)
            done.append(m)
            need(real.well_formed(tree, X) == t, "moves gave another tree")
            cov.transitions += 1
            cov.states += 1
        disallowed(tree, real.index(tree), X, y, {}, cov)
        while t is not None:        # and all the way back
            p = ref.prunable(t, X)
            m = ("prune", p[len(done) % len(p)][0])
            real.do(tree, m)
            done.append(m)
            t = ref.apply(t, m)
            need(real.well_formed(tree, X) == t, "prunes gave another tree")
            cov.transitions += 1
        real.tree_stats_ok(tree, X, y, None, t)
    except Violation as v:
        v.detail.update(history=done, case=item["case"])
        raise
    cov.executions += 1
    return cov


def run_sampler(item):
    """The same for the moves the default tree update makes."""
    cov = Coverage()
    X = ref.matrix(item["cols"], 1)

    def visit(model, tree, t, d):
        try:
            need(real.well_formed(tree, X) == t, "links and conditions disagree")
        except Violation as v:
            v.detail.update(d)
            raise
    walk.walks(common.own_sampler, X, ref.targets(len(X)), item["depth"], item["cap"], cov, visit)
    return cov


def undo(X, y, hist, m, t, d):
    """Grow, then prune the result: partition and statistics as before."""
    tree = real.build(X, y, hist)
    real.do(tree, m)
    real.do(tree, ("prune", m[1]))
    try:
        need(real.well_formed(tree, X) == t, "grow then prune did not restore the tree", got=real.canon(tree), expected=t)
        real.tree_stats_ok(tree, X, y, None, t)
    except Violation as v:
        v.detail.update(d, undone=m)
        raise


def disallowed(tree, idx, X, y, d, cov):
    def state():
        return ([(id(n), n.depth, id(n.left_child), id(n.right_child)) for n in tree.nodes], real.canon(tree))
    before = state()
    for path, node in idx.items():
        tries = []
        if type(node) == LeafNode:
            tries.append(("prune of a leaf", lambda: PruneMutation(node, LeafNode(node.split, depth=node.depth))))
        else:
            if not (type(node.left_child) == LeafNode and type(node.right_child) == LeafNode):
                tries.append(("prune of a node with a non-leaf child", lambda: PruneMutation(node, LeafNode(node.split, depth=node.depth))))
            tries.append(("grow of a decision node", lambda: GrowMutation(node, node)))
        for what, f in tries:
            cov.transitions += 1
            try:
                m = f()
                mutate(tree, m)
            except TypeError:
                pass
            except Violation:
                raise
            else:
                need(False, "a disallowed move was not refused: " + what, path=path, **d)
            need(state() == before, "a refused move changed the tree: " + what, path=path, **d)

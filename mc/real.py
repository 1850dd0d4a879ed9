"""Drivers and observers of the real bartpy objects (public names only)."""
from operator import gt, le

import numpy as np

from bartpy.data import Data
from bartpy.mutation import GrowMutation, PruneMutation
from bartpy.node import DecisionNode, LeafNode, split_node
from bartpy.split import Split
from bartpy.splitcondition import SplitCondition
from bartpy.tree import Tree, mutate

from mc.core import Violation, need


def new_tree(X, y, mask=None):
    return Tree([LeafNode(Split(Data(np.array(X, dtype=float), np.array(y, dtype=float), mask=mask)))])


def root_of(tree):
    nodes = list(tree.nodes)
    kids = set()
    for n in nodes:
        if type(n) == DecisionNode:
            kids.add(id(n.left_child))
            kids.add(id(n.right_child))
    roots = [n for n in nodes if id(n) not in kids]
    need(len(roots) == 1, "a tree must have exactly one root among its listed nodes", roots=len(roots), nodes=len(nodes))
    return roots[0]


def cond_of(node):
    """(variable, value) a decision node splits on."""
    c = node.most_recent_split_condition()
    need(c is not None, "a decision node has no split condition")
    return int(c.splitting_variable), float(c.splitting_value)


def index(tree):
    """path -> node, following child links from the root."""
    out = {}

    def rec(node, path):
        need(len(path) < 300, "child links do not end")
        out[path] = node
        if type(node) == DecisionNode:
            rec(node.left_child, path + (0,))
            rec(node.right_child, path + (1,))
        else:
            need(type(node) == LeafNode, "unexpected kind of node", kind=type(node).__name__)
    rec(root_of(tree), ())
    return out


def canon(tree):
    """Nested tuple form of the real tree (mc.ref)."""
    def rec(node, depth):
        need(depth < 300, "child links do not end")
        if type(node) == LeafNode:
            return None
        v, val = cond_of(node)
        return (v, val, rec(node.left_child, depth + 1), rec(node.right_child, depth + 1))
    return rec(root_of(tree), 0)


def conditions(v, val):
    return SplitCondition(v, val, le), SplitCondition(v, val, gt)


def grow_mutation(leaf, v, val):
    return GrowMutation(leaf, split_node(leaf, conditions(v, val)))


def prune_mutation(node):
    return PruneMutation(node, LeafNode(node.split, depth=node.depth))


def do(tree, move):
    """Apply a reference move to the real tree through the low level API."""
    node = index(tree)[move[1]]
    m = grow_mutation(node, move[2], move[3]) if move[0] == "grow" else prune_mutation(node)
    mutate(tree, m)
    return m


def build(X, y, history):
    t = new_tree(X, y)
    for m in history:
        do(t, m)
    return t


def rows_of(node):
    return tuple(int(i) for i in np.nonzero(np.asarray(node.split.condition()))[0])


def leaf_prediction(tree, n):
    """In sample prediction computed from the leaves alone (does not touch the tree's cache)."""
    out = np.zeros(n)
    for leaf in tree.leaf_nodes:
        out[np.asarray(leaf.split.condition())] = leaf.current_value
    return out


def move_of(tree, mutation, idx=None):
    """Reference form of a real mutation on the (unchanged) tree."""
    idx = idx or index(tree)
    paths = [p for p, n in idx.items() if n is mutation.existing_node]
    need(len(paths) == 1, "the mutated node must be a node of the tree", kind=mutation.kind)
    if mutation.kind == "grow":
        v, val = cond_of(mutation.updated_node)
        return ("grow", paths[0], v, val)
    return ("prune", paths[0])


def well_formed(tree, X):
    """Structure check against the reference; returns canonical form."""
    from mc import ref
    idx = index(tree)
    listed = list(tree.nodes)
    need(len(set(map(id, listed))) == len(listed), "a node is listed twice", nodes=len(listed))
    need(set(map(id, listed)) == set(id(n) for n in idx.values()),
         "listed nodes differ from the nodes reachable from the root", listed=len(listed), reachable=len(idx))
    for path, n in idx.items():
        need(n.depth == len(path) + root_of(tree).depth, "wrong depth", path=path, depth=n.depth)
    c = canon(tree)
    exp = {p: (sub, rows) for p, sub, rows, _ in ref.walk(c, X)}
    need(set(exp) == set(idx), "links and split conditions disagree", tree=c)
    L = set(id(n) for n in idx.values() if type(n) == LeafNode)
    D = set(id(n) for n in idx.values() if type(n) == DecisionNode)
    need(sorted(map(id, tree.leaf_nodes)) == sorted(L), "leaf list is wrong", tree=c)
    need(sorted(map(id, tree.decision_nodes)) == sorted(D), "decision node list is wrong", tree=c)
    P = [id(idx[p]) for p, _, _, _ in ref.prunable(c, X)]
    need(sorted(map(id, tree.prunable_decision_nodes)) == sorted(P), "prunable node list is wrong", tree=c)
    S = [id(idx[p]) for p, (sub, rows) in exp.items() if sub is None and ref.splittable(X, rows)]
    need(sorted(map(id, tree.splittable_leaf_nodes)) == sorted(S), "splittable leaf list is wrong", tree=c,
         got=len(tree.splittable_leaf_nodes), expected=len(S))
    return c


# ------------------------------------------------------------------ node statistics
def q_count(node, X, y, rows):
    need(int(node.data.X.n_obsv) == len(rows), "reported number of observations is wrong", got=int(node.data.X.n_obsv), rows=rows)


def q_sum(node, X, y, rows):
    exp = sum(float(y[i]) for i in rows)
    got = float(node.data.y.summed_y())
    tol = 1e-10 * (1.0 + sum(abs(float(v)) for v in y))
    need(abs(got - exp) <= tol, "reported target sum is wrong", got=got, expected=exp, rows=rows)


def q_target(node, X, y, rows):
    v = np.asarray(node.data.y.values, dtype=float)
    tol = 1e-10 * (1.0 + max([abs(float(a)) for a in y] + [0.0]))
    need(v.shape == np.shape(y) and all(abs(v[i] - y[i]) <= tol for i in rows), "current targets of a node are wrong", got=v, expected=y)


def q_splittable(node, X, y, rows):
    from mc import ref
    exp = ref.splittable(X, rows)
    got = [int(v) for v in node.data.X.splittable_variables()]
    need(sorted(got) == exp, "splittable variables are wrong", got=got, expected=exp, rows=rows)
    need(int(node.data.X.n_splittable_variables) == len(exp), "number of splittable variables is wrong", rows=rows)


def q_any(node, X, y, rows):
    from mc import ref
    exp = bool(ref.splittable(X, rows))
    need(bool(node.data.X.is_at_least_one_splittable_variable()) == exp, "whether any variable is splittable is wrong",
         got=not exp, rows=rows)
    if type(node) == LeafNode:
        need(bool(node.is_splittable()) == exp, "whether a leaf is splittable is wrong", got=not exp, rows=rows)


def q_unique(node, X, y, rows):
    for v in range(X.shape[1]):
        col = [X[i, v] for i in rows]
        need(bool(node.data.X.is_column_unique(v)) == (len(set(col)) == len(col)), "column uniqueness is wrong", variable=v, rows=rows)


def q_max(node, X, y, rows):
    for v in range(X.shape[1]):
        need(float(node.data.X.max_value_of_column(v)) == max(X[i, v] for i in rows), "column maximum is wrong", variable=v,
             got=float(node.data.X.max_value_of_column(v)), rows=rows)


def q_prop(node, X, y, rows):
    for v in range(X.shape[1]):
        col = [X[i, v] for i in rows]
        for val in sorted(set(col)):
            got = float(node.data.X.proportion_of_value_in_variable(v, val))
            need(abs(got - col.count(val) / len(col)) < 1e-12, "proportion of a value in a column is wrong", variable=v, value=val,
                 got=got, expected=col.count(val) / len(col), rows=rows)


def q_column(node, X, y, rows):
    for v in range(X.shape[1]):
        got = [float(x) for x in node.data.X.get_column(v)]
        need(sorted(got) == sorted(X[i, v] for i in rows), "column of a node is wrong", variable=v, got=got, rows=rows)


QUERIES = {"count": q_count, "sum": q_sum, "target": q_target, "splittable": q_splittable, "any": q_any, "unique": q_unique,
           "max": q_max, "prop": q_prop, "column": q_column}


def stats_ok(node, X, y, rows, names=None, **detail):
    for name in (names or QUERIES):
        try:
            QUERIES[name](node, X, y, rows)
        except Violation as v:
            v.detail.update(detail)
            raise
        if name == "count" and not rows:
            return


def tree_stats_ok(tree, X, y, names=None, canonical=None, **detail):
    from mc import ref
    idx = index(tree)
    c = canon(tree) if canonical is None else canonical
    for path, sub, rows, depth in ref.walk(c, X):
        stats_ok(idx[path], X, y, rows, names, path=path, tree=c, **detail)

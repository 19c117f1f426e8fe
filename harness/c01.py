"""Bounded: execution order of random graphs and of random models."""
from hlib import *
import random

h = H('graphs of 0-40 nodes (acyclic, cyclic, cycles nothing leads to, parallel edges, self loops, up to 99 children), asked once, twice and after '
      'additions; order of the statements of random models', 60)
numba_stub()
import numpy as np
import hmodel
from numerous.engine.model.graph_representation.graph import Graph, Node, Edge
from numerous.engine.model.graph_representation.utils import EdgeType


def build(n, edges, deleted=()):
    g = Graph(preallocate_items=max(1, n, len(edges)) + 60)
    for i in range(n):
        g.add_node(Node(key='k%d' % i, node_type=0))
    for a, b in edges:
        g.add_edge(Edge(a, b, e_type=EdgeType.DEP))
    return g


def upstream(n, edges):
    """nodes that do not come after a cycle (no cycle leads to them)"""
    ind = [0] * n
    for a, b in edges:
        ind[b] += 1
    todo = [i for i in range(n) if ind[i] == 0]
    out = set()
    while todo:
        x = todo.pop()
        out.add(x)
        for a, b in edges:
            if a == x:
                ind[b] -= 1
                if ind[b] == 0:
                    todo.append(b)
    return out


def check(order, n, edges):
    order = [int(x) for x in order]
    if sorted(order) != list(range(n)):
        return 'order %s does not list each of %d nodes once' % (order, n)
    pos = {x: i for i, x in enumerate(order)}
    up = upstream(n, edges)
    for a, b in edges:
        if b in up and pos[a] >= pos[b]:
            return 'node %d depends on %d but comes before it in %s' % (b, a, order)
    return None


def graph(seed):
    rng = random.Random(seed)
    n = rng.randint(0, 12) if rng.random() < 0.7 else rng.randint(10, 40)
    edges = []
    kind = rng.choice(['dag', 'dag', 'any', 'loop', 'self'])
    perm = list(range(n))
    rng.shuffle(perm)
    for _ in range(rng.randint(0, 2 * n)):
        if n < 2:
            break
        a, b = rng.sample(range(n), 2)
        if kind != 'any' and a > b:
            a, b = b, a
        edges.append((perm[a], perm[b]))
        if rng.random() < 0.2:
            edges.append((perm[a], perm[b]))
    if kind == 'loop' and n >= 3:
        k = rng.randint(2, min(n, 5))
        c = rng.sample(range(n), k)
        pure = rng.random() < 0.5
        if pure:
            edges = [(a, b) for a, b in edges if b not in c]
        edges += [(c[i], c[(i + 1) % k]) for i in range(k)]
    if kind == 'self' and n:
        edges.append((n - 1, n - 1))
    rng.shuffle(edges)
    return n, edges


def once(seed):
    n, edges = graph(seed)
    g = build(n, edges)
    r = check(g.topological_nodes(), n, edges)
    if r:
        return '%s; edges %s' % (r, edges)
    for again in range(2):
        r = check(g.topological_nodes(), n, edges)
        if r:
            return 'asked again: %s; edges %s' % (r, edges)
    g.make_lower_graph(top_sort=True)
    if len(upstream(n, edges)) == n:
        r = check(g.lower_graph.topological_sorted_nodes, n, edges)
        if r:
            return 'lower graph: %s; edges %s' % (r, edges)
        r = check(g.topological_nodes(ignore_cyclic=False), n, edges)
        if r:
            return 'refusing cycles: %s; edges %s' % (r, edges)


def later(seed):
    """the order after more nodes and edges were added, and of a clone"""
    rng = random.Random(seed + 3)
    n, edges = graph(seed)
    g = build(n, edges)
    g.topological_nodes()
    m = n + rng.randint(1, 3)
    for i in range(n, m):
        g.add_node(Node(key='k%d' % i, node_type=0))
    new = [tuple(rng.sample(range(m), 2)) for _ in range(rng.randint(1, 4)) if m >= 2]
    for a, b in new:
        g.add_edge(Edge(a, b, e_type=EdgeType.DEP))
    r = check(g.topological_nodes(), m, edges + new)
    if r:
        return 'after additions: %s; edges %s then %s' % (r, edges, new)
    c = g.clone()
    r = check(c.topological_nodes(), m, edges + new)
    if r:
        return 'clone: %s' % r
    g.clean()
    r = check(g.topological_nodes(), m, edges + new)
    if r:
        return 'after clean: %s' % r


def wide(k):
    edges = [(0, i) for i in range(1, k + 1)] + [(i, k + 1) for i in range(1, min(k, 99) + 1)]
    g = build(k + 2, edges)
    try:
        r = check(g.topological_nodes(), k + 2, edges)
    except ValueError:
        return None if k > 99 else 'refused %d children' % k
    return r


def model(seed):
    """every statement of the generated program after the statements it depends on"""
    rng = random.Random(seed)
    sp = hmodel.random_spec(rng, n_items=rng.randint(1, 4), n_methods=rng.randint(2, 8))
    m = hmodel.build(sp)
    given = hmodel.given_values(sp)
    for k in given:
        given[k] = rng.uniform(-1, 1)
    want = sp.evaluate(given, t=0.7)
    ids = hmodel.ids(m, sp)
    for k, v in given.items():
        m.var_write(v, m.vars_ordered_values[ids[k]])
    m.compiled_compute(np.array([m.var_func()[i] for i in m.state_idx]), np.array([0.7]))
    got = m.var_func()
    for k, v in want.items():
        x = got[m.vars_ordered_values[ids[k]]]
        if abs(x - v) > 1e-9 * max(1, abs(v)):
            return 'one evaluation gives %s = %r instead of %r' % (k, x, v)


def loops(seed):
    """algebraic loops between variables: no statement lost"""
    rng = random.Random(seed)
    from numerous.engine.model import Model
    sp = hmodel.Spec()
    k = rng.randint(2, 4)
    for i in range(k):
        sp.items['b%d' % i] = dict(ns='n', vars=[('x', 'param', 0.5), ('y', 'param', 0.25)], methods=[('m', ['scope.y = 2 * scope.x'])])
    sp.items['z'] = dict(ns='n', vars=[('s', 'state', 1.0), ('s_dot', 'dot', 0), ('o', 'param', 0.0)], methods=[('m', ['scope.s_dot = -scope.s']), ('q', ['scope.o = 3 * scope.s'])])
    for i in range(k):
        sp.maps.append((('b%d' % i, 'x'), '=', ('b%d' % ((i + 1) % k), 'y')))
    m = hmodel.build(sp)
    ids = hmodel.ids(m, sp)
    slot = lambda *p: m.vars_ordered_values[ids[p]]
    v = lambda *p: m.var_func()[slot(*p)]
    for i in range(k):
        for n in 'xy':
            m.var_write(float(rng.randint(1, 9)), slot('b%d' % i, n))
    before = {('b%d' % i, n): v('b%d' % i, n) for i in range(k) for n in 'xy'}
    m.compiled_compute(np.array([1.5]), np.array([0.0]))
    if v('z', 'o') != 4.5:
        return 'variable outside the loop computed as %r instead of 4.5' % v('z', 'o')
    # every statement ran once: k+k of them, each using either the value before or the one just computed
    for i in range(k):
        if v('b%d' % i, 'y') not in (2 * v('b%d' % i, 'x'), 2 * before['b%d' % i, 'x']):
            return 'y of item %d is %r with x %r (before: %r)' % (i, v('b%d' % i, 'y'), v('b%d' % i, 'x'), before['b%d' % i, 'x'])
        j = (i + 1) % k
        if v('b%d' % i, 'x') not in (v('b%d' % j, 'y'), before['b%d' % j, 'y']):
            return 'x of item %d is %r, its source %r (before: %r)' % (i, v('b%d' % i, 'x'), v('b%d' % j, 'y'), before['b%d' % j, 'y'])


for i in range(3000 if THOROUGH else 500):
    if not h.left():
        break
    h.case('order', lambda: once(SEED * 10000 + i), {'seed': SEED * 10000 + i})
    if i % 3 == 0:
        h.case('after-additions', lambda: later(SEED * 10000 + i), {'seed': SEED * 10000 + i})
for k in (1, 5, 50, 98, 99):
    h.case('many-children', lambda: wide(k), {'children': k})
for i in range(200 if THOROUGH else 25):
    if not h.left():
        break
    h.case('model', lambda: model(SEED * 1000 + i), {'seed': SEED * 1000 + i})
    if i % 4 == 0:
        h.case('loop-between-variables', lambda: loops(SEED * 1000 + i), {'seed': SEED * 1000 + i})
h.done()

"""Bounded: random histories of additions, removals and queries against a plain record of what was done."""
from hlib import *
import numpy as np
import random

h = H('random histories of up to 60 additions, replacements, end point changes, removals and queries over up to 12 keys and 40 edges; kinds from all edge types; copies of graphs changed afterwards', 40)
from numerous.engine.model.graph_representation.graph import Graph, Node, Edge
from numerous.engine.model.graph_representation.utils import EdgeType

KINDS = list(EdgeType)


class Record:
    def __init__(self):
        self.keys, self.nodes, self.edges = [], [], []     # edges: [start, end, kind, deleted, object]

    def copy(self):
        r = Record()
        r.keys, r.nodes, r.edges = list(self.keys), list(self.nodes), [list(e) for e in self.edges]
        return r


def compare(g, r, rng):
    n = len(r.keys)
    if g.node_counter != n or len(g.nodes) != n or len(g.node_map) != n or len(g.key_map) != n:
        return '%d keys added, counters say %r %r %r %r' % (n, g.node_counter, len(g.nodes), len(g.node_map), len(g.key_map))
    for i, k in enumerate(r.keys):
        if g.node_map.get(k) != i or g.key_map.get(i) != k:
            return 'key %r is number %r, number %d is key %r' % (k, g.node_map.get(k), i, g.key_map.get(i))
        if g.nodes[i] is not r.nodes[i]:
            return 'node stored under %r (number %d) is another one' % (k, i)
        if g.nodes[i].node_n != i:
            return 'node number %d says it is %r' % (i, g.nodes[i].node_n)
    if g.edge_counter != len(r.edges):
        return '%d edges added, %d counted' % (len(r.edges), g.edge_counter)
    for j, (s, e, kind, dead, o) in enumerate(r.edges):
        if tuple(g.edges[j]) != (s, e):
            return 'edge %d goes %s instead of %s' % (j, tuple(g.edges[j]), (s, e))
        c = g.edges_c[j]
        if o is not None and c is not o or c.edge_n != j or c.e_type != kind or bool(c.deleted) != dead:
            return 'data of edge %d: number %r, kind %r, deleted %r instead of kind %r, deleted %r' % (j, c.edge_n, c.e_type, c.deleted, kind, dead)


def queries(g, r, rng):
    n = len(r.keys)
    kinds = list(dict.fromkeys(e[2] for e in r.edges)) + [rng.choice(KINDS)]
    for v in [0, n - 1] + rng.sample(range(n), min(n, 2)):
        for kind in kinds:
            for name, col in (('start_node', 0), ('end_node', 1)):
                want = [j for j, e in enumerate(r.edges) if e[col] == v and e[2] == kind and not e[3]]
                got = g.get_edges_type_for_node_filter(**{name: v}, val=kind)
                if [int(x) for x in got[0]] != want:
                    return 'edges of kind %s with %s=%d: %s instead of %s' % (kind.name, name, v, [int(x) for x in got[0]], want)
                if [tuple(int(y) for y in x) for x in got[1]] != [tuple(r.edges[j][:2]) for j in want]:
                    return 'end points of edges of kind %s with %s=%d: %s' % (kind.name, name, v, got[1])
        for name, col in (('start_node', 0), ('end_node', 1)):
            want = [j for j, e in enumerate(r.edges) if e[col] == v]
            got = list(g.get_edges_for_node(**{name: v}))
            if [int(i[0]) for i, _ in got] != want or [tuple(int(y) for y in x) for _, x in got] != [tuple(r.edges[j][:2]) for j in want]:
                return 'edges with %s=%d: %s instead of %s' % (name, v, got, want)
            if bool(g.has_edge_for_nodes(**{name: v})) != bool(want):
                return 'has an edge with %s=%d: %s' % (name, v, not want)
        w = rng.randrange(n)
        want = [j for j, e in enumerate(r.edges) if e[0] == v and e[1] == w]
        if [int(x) for x in g.has_edge_for_nodes(start_node=v, end_node=w)] != want:
            return 'edges from %d to %d: %s instead of %s' % (v, w, g.has_edge_for_nodes(start_node=v, end_node=w), want)
    for t in (0, 1):
        for not_ in (False, True):
            want = [i for i, x in enumerate(r.nodes) if not x.deleted and (x.node_type == t) != not_]
            got = g.get_where_node_attr('node_type', t, not_=not_)
            if list(got) != want:
                return 'nodes with type %d (not_=%s): %s instead of %s' % (t, not_, got, want)
    want = [i for i in range(n) if not any(e[1] == i for e in r.edges)]
    if sorted(g.zero_in_degree()) != want:
        return 'nodes nothing leads to: %s instead of %s' % (g.zero_in_degree(), want)


def step(g, r, rng, used):
    op = rng.random()
    n = len(r.keys)
    if op < 0.3 or n == 0:
        key = 'k%d' % rng.randrange(12)
        node = Node(key=key if rng.random() < 0.9 else None, node_type=rng.randrange(2))
        ignore, skip = rng.random() < 0.3, rng.random() < 0.8
        known = node.key in r.keys
        try:
            got = g.add_node(node, ignore_existing=ignore, skip_existing=skip)
        except ValueError:
            if known and not ignore and not skip:
                return
            return 'adding %r refused' % key
        if known and not ignore and not skip:
            return 'adding the known key %r again was not refused' % key
        if not node.key:
            return 'a node without key was stored without one'
        want = r.keys.index(node.key) if known else n
        if got != want:
            return 'adding %r gave number %r instead of %d' % (node.key, got, want)
        if not known:
            r.keys.append(node.key)
            r.nodes.append(node)
        elif ignore:
            r.nodes[want] = node
    elif op < 0.65:
        e = Edge(rng.randrange(n), rng.randrange(n), e_type=rng.choice(KINDS[:4]))
        got = g.add_edge(e)
        if got != len(r.edges):
            return 'edge number %r instead of %d' % (got, len(r.edges))
        r.edges.append([e.start, e.end, e.e_type, False, e])
    elif op < 0.75 and r.edges:
        j = rng.randrange(len(r.edges))
        g.remove_edge(j)
        r.edges[j][3] = True
    elif op < 0.8 and r.edges:
        j = rng.randrange(len(r.edges))
        s, e = rng.choice([(None, rng.randrange(n)), (rng.randrange(n), None), (rng.randrange(n), rng.randrange(n)), (0, None), (None, 0)])
        g.set_edge(j, start=s, end=e)
        if s is not None:
            r.edges[j][0] = s
        if e is not None:
            r.edges[j][1] = e
    elif op < 0.83:
        g.remove_node(rng.randrange(n))      # the node objects are shared with the record
    elif op < 0.86:
        g.clean()
    else:
        return queries(g, r, rng)


def history(seed):
    rng = random.Random(seed)
    g, r = Graph(preallocate_items=rng.choice([64, 100])), Record()
    for k in range(rng.randint(1, 60)):
        d = step(g, r, rng, None) or compare(g, r, rng)
        if d:
            return 'after %d operations: %s' % (k + 1, d)
    return queries(g, r, rng)


def copied(seed):
    rng = random.Random(seed + 5)
    g, r = Graph(preallocate_items=64), Record()
    while not r.keys:
        step(g, r, rng, None)
    for k in range(rng.randint(1, 25)):
        d = step(g, r, rng, None)
        if d:
            return d
    if rng.random() < 0.5:
        queries(g, r, rng)
    c, rc = g.clone(), r.copy()
    for e in rc.edges:
        e[4] = None
    d = compare(c, rc, rng) or queries(c, rc, rng)
    if d:
        return 'copy: ' + d
    deadn = {id(x): x.deleted for x in r.nodes}
    for k in range(12):
        which = rng.random() < 0.5
        if rng.random() < 0.2 and r.edges and rc.edges:
            # removal in one of them
            j = rng.randrange(min(len(r.edges), len(rc.edges)))
            (g if which else c).remove_edge(j)
            (r if which else rc).edges[j][3] = True
        else:
            n = len((r if which else rc).keys)
            e = Edge(rng.randrange(n), rng.randrange(n), e_type=rng.choice(KINDS[:4]))
            (g if which else c).add_edge(e)
            (r if which else rc).edges.append([e.start, e.end, e.e_type, False, e])
        d = compare(g, r, rng) or queries(g, r, rng)
        if d:
            return 'original after changes of either: ' + d
        d = compare(c, rc, rng) or queries(c, rc, rng)
        if d:
            return 'copy after changes of either: ' + d


def arguments(seed):
    g = Graph(preallocate_items=10)
    for k in 'ab':
        g.add_node(Node(key=k, node_type=0))
    g.add_edge(Edge(0, 1, e_type=EdgeType.ARGUMENT))
    for kw in (dict(), dict(start_node=0, end_node=1)):
        try:
            g.get_edges_type_for_node_filter(**kw, val=EdgeType.ARGUMENT)
        except ValueError:
            continue
        return 'query with %s was answered' % (kw or 'no node')


h.case('arguments', lambda: arguments(0), {})
i = 0
while h.left() and i < (6000 if THOROUGH else 700):
    h.case('history', lambda: history(SEED * 100000 + i), {'seed': SEED * 100000 + i})
    h.case('copy', lambda: copied(SEED * 100000 + i), {'seed': SEED * 100000 + i})
    i += 1
h.done()

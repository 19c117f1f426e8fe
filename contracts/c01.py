"""Execution order: Kahn's algorithm over the dependency graph, any graph."""
from pyvc.spec import *

EXPLAIN = 'Contracts of _Graph.in_degree, make_children_map, get_zero_indegree, __init__, topological_sort and of Graph.topological_nodes over ' \
          'counting functions of the edge list: every node once, every predecessor of a sorted node earlier, every node whose predecessors are ' \
          'all sorted is sorted (with the lemma: everything that no cycle leads to is sorted), rest of the nodes at the end.'
ASSUME = ['numba compiles the methods of _Graph to what Python means', 'detect_cyclic_graph (names a cycle for the message) changes nothing',
          'iterating over the difference of two sets meets each element once']
LG = 'numerous.engine.model.graph_representation.lower_graph:_Graph'
GR = 'numerous.engine.model.graph_representation.graph:Graph'
LIM = 99


def build(reg):
    A2 = TArr(Int, 2)
    A1 = TArr(Int)
    # edges into v, edges out of u, remaining (not done) edges into v, zero entries; among the first k
    reg.fn('DEG', [('E', A2), ('v', Int), ('k', Int)], Int, '0 if k<=0 else DEG(E,v,k-1)+(1 if E[k-1,1]==v else 0)', rec=True)
    reg.fn('OUT', [('E', A2), ('u', Int), ('k', Int)], Int, '0 if k<=0 else OUT(E,u,k-1)+(1 if E[k-1,0]==u else 0)', rec=True)
    reg.fn('CNT', [('E', A2), ('D', A1), ('v', Int), ('k', Int)], Int, '0 if k<=0 else CNT(E,D,v,k-1)+(1 if E[k-1,1]==v and D[k-1]==0 else 0)', rec=True)
    reg.fn('ZC', [('a', A1), ('k', Int)], Int, '0 if k<=0 else ZC(a,k-1)+(1 if a[k-1]==0 else 0)', rec=True)
    reg.fn('HIT', [('p', A1), ('c', Int), ('k', Int)], Int, '0 if k<=0 else HIT(p,c,k-1)+(1 if 0<=p[k-1] and p[k-1]<c else 0)', rec=True)
    reg.lemma('deg_mono', [('E', A2), ('v', Int), ('j', Int), ('k', Int)], induct='k', requires=['0<=j', 'j<=k'], ensures=['DEG(E,v,j)<=DEG(E,v,k)', 'implies(j<k and E[j,1]==v, DEG(E,v,j)<DEG(E,v,k))'])
    reg.lemma('out_mono', [('E', A2), ('u', Int), ('j', Int), ('k', Int)], induct='k', requires=['0<=j', 'j<=k'], ensures=['OUT(E,u,j)<=OUT(E,u,k)', 'implies(j<k and E[j,0]==u, OUT(E,u,j)<OUT(E,u,k))'])
    reg.lemma('cnt_start', [('E', A2), ('D', A1), ('v', Int), ('k', Int)], induct='k', requires=['0<=k', 'all(D[j]==0 for j in range(k))'], ensures=['CNT(E,D,v,k)==DEG(E,v,k)'])
    reg.lemma('cnt_mark', [('E', A2), ('D', A1), ('N', A1), ('e', Int), ('v', Int), ('k', Int)], induct='k', requires=['0<=k', '0<=e', 'D[e]==0', 'all(N[j]==(1 if j==e else D[j]) for j in range(k))'],
              ensures=['CNT(E,N,v,k)==CNT(E,D,v,k)-(1 if e<k and E[e,1]==v else 0)'])
    reg.lemma('cnt_zero', [('E', A2), ('D', A1), ('v', Int), ('k', Int)], induct='k', requires=['0<=k'],
              ensures=['CNT(E,D,v,k)>=0', 'iff(CNT(E,D,v,k)==0, all(implies(E[j,1]==v, D[j]!=0) for j in range(k)))'])
    # the last remaining edge into v
    reg.fn('WE', [('E', A2), ('D', A1), ('v', Int), ('k', Int)], Int, '-1 if k<=0 else (k-1 if E[k-1,1]==v and D[k-1]==0 else WE(E,D,v,k-1))', rec=True)
    reg.lemma('cnt_some', [('E', A2), ('D', A1), ('v', Int), ('k', Int)], induct='k', requires=['0<=k', 'CNT(E,D,v,k)!=0'],
              ensures=['0<=WE(E,D,v,k)', 'WE(E,D,v,k)<k', 'E[WE(E,D,v,k),1]==v', 'D[WE(E,D,v,k)]==0'])
    reg.lemma('zc_set', [('a', A1), ('n', A1), ('i', Int), ('k', Int)], induct='k', requires=['0<=k', '0<=i', 'all(implies(j!=i, n[j]==a[j]) for j in range(k))'],
              ensures=['ZC(n,k)==ZC(a,k)+((1 if n[i]==0 else 0)-(1 if a[i]==0 else 0) if i<k else 0)'])
    reg.lemma('zc_all', [('a', A1), ('k', Int)], induct='k', requires=['0<=k'], ensures=['0<=ZC(a,k)', 'ZC(a,k)<=k', 'iff(ZC(a,k)==k, all(a[i]==0 for i in range(k)))'])
    reg.lemma('zc_mono', [('a', A1), ('j', Int), ('k', Int)], induct='k', requires=['0<=j', 'j<=k'], ensures=['ZC(a,j)<=ZC(a,k)', 'implies(j<k and a[j]==0, ZC(a,j)<ZC(a,k))'])
    reg.lemma('zc_same', [('a', A1), ('c', A1), ('k', Int)], induct='k', requires=['0<=k', 'all(a[j]==c[j] for j in range(k))'], ensures=['ZC(a,k)==ZC(c,k)'])
    # counting through a one-to-one map: p: nodes -> places below c, s: its inverse
    reg.lemma('hit_step', [('p', A1), ('a', Int), ('c', Int), ('n', Int)], induct='n', requires=['0<=n', '0<=a', '0<=c', 'p[a]==c', 'all(implies(p[v]==c, v==a) for v in range(n))'],
              ensures=['HIT(p,c+1,n)==HIT(p,c,n)+(1 if a<n else 0)'])
    reg.lemma('hit_none', [('p', A1), ('n', Int)], induct='n', requires=['0<=n'], ensures=['HIT(p,0,n)==0'])
    reg.lemma('hit_all', [('p', A1), ('c', Int), ('n', Int)], induct='n', requires=['0<=n', 'all(0<=p[v] and p[v]<c for v in range(n))'], ensures=['HIT(p,c,n)==n'])
    reg.lemma('hit_count', [('p', A1), ('s', A1), ('n', Int), ('c', Int)], induct='c', requires=['0<=n', '0<=c', 'all(0<=s[i] and s[i]<n and p[s[i]]==i for i in range(c))', 'all(implies(0<=p[v] and p[v]<c, s[p[v]]==v) for v in range(n))'],
              ensures=['HIT(p,c,n)==c'], hints='use(hit_none(p, n))\nuse(hit_step(p, s[c-1], c-1, n))')
    T = TObj('_Graph', n_nodes=Int, n_edges=Int, n_children_max=Int, edges=A2, nodes=A1, node_types=A1, indegree_map=A1, children=A2, parent_edges=A2,
             children_edges=A2, topological_sorted_nodes=A1, cyclic_dependency=Int, cyclic_path=A1, place=A1, placed=Int, waits=A1)
    reg.classes['_Graph'] = LG
    SHAPE = [('edges-between-nodes', 'self.n_nodes>=0 and self.n_edges==self.edges.shape[0] and self.edges.shape[1]>=2 and '
              'all(0<=self.edges[j,0] and self.edges[j,0]<self.n_nodes and 0<=self.edges[j,1] and self.edges[j,1]<self.n_nodes for j in range(self.n_edges))')]
    DEGS = ['len(self.indegree_map)==self.n_nodes', 'all(self.indegree_map[v]==DEG(self.edges,v,{k}) for v in range(self.n_nodes))']
    reg.contract(LG + '.in_degree', params=dict(self=T), requires=SHAPE + ['len(self.indegree_map)==self.n_nodes', 'all(self.indegree_map[v]==0 for v in range(self.n_nodes))'],
                 modifies=['self.indegree_map'],
                 ensures=[('counts-edges-into-a-node', ' and '.join(DEGS).format(k='self.n_edges'))], loops=[LoopSpec([x.format(k='_k') for x in DEGS])])
    E = 'self.edges'
    MAXC = 'self.n_children_max==100 and self.children.shape[0]==self.n_nodes and self.children.shape[1]==100 and self.children_edges.shape[0]==self.n_nodes and ' \
           'self.children_edges.shape[1]==100 and self.parent_edges.shape[0]==self.n_nodes and self.parent_edges.shape[1]==100'

    def rows(k):
        return [('one-entry-per-edge-out', 'all(self.children[u,0]==OUT(%s,u,%s) and self.children_edges[u,0]==OUT(%s,u,%s) and 0<=self.children[u,0] and self.children[u,0]<=99 for u in range(self.n_nodes))' % (E, k, E, k)),
                ('one-entry-per-edge-in', 'all(self.parent_edges[u,0]==DEG(%s,u,%s) and 0<=self.parent_edges[u,0] and self.parent_edges[u,0]<=99 for u in range(self.n_nodes))' % (E, k)),
                ('entries-are-its-edges', 'all(0<=self.children_edges[u,i+1] and self.children_edges[u,i+1]<{k} and {E}[self.children_edges[u,i+1],0]==u and '
                 'self.children[u,i+1]=={E}[self.children_edges[u,i+1],1] and OUT({E},u,self.children_edges[u,i+1])==i for u in range(self.n_nodes) for i in range(self.children[u,0]))'.format(E=E, k=k)),
                ('every-edge-has-its-entry', 'all(self.children_edges[{E}[e,0], OUT({E},{E}[e,0],e)+1]==e and OUT({E},{E}[e,0],e)<self.children[{E}[e,0],0] and 0<=OUT({E},{E}[e,0],e) for e in range({k}))'.format(E=E, k=k))]
    many = 'any(OUT({0},v,{1})>99 or DEG({0},v,{1})>99 for v in range({2}))'
    reg.contract(LG + '.make_children_map', params=dict(self=T), requires=SHAPE + [MAXC] + ['all(self.children[u,0]==0 and self.parent_edges[u,0]==0 and self.children_edges[u,0]==0 for u in range(self.n_nodes))'],
                 raises=[('ValueError', many.format(E, 'self.n_edges', 'self.n_nodes'))],
                 modifies=['self.children', 'self.parent_edges', 'self.children_edges'], ensures=rows('self.n_edges'),
                 loops=[LoopSpec([x for _, x in rows('_k')], use_start='use(forall(lambda v, j: out_mono(self.edges, v, j, self.n_edges), T="Int Int", pat=OUT(self.edges,v,j)))\n'
                                  'use(forall(lambda v, j: deg_mono(self.edges, v, j, self.n_edges), T="Int Int", pat=DEG(self.edges,v,j)))\n'
                                 'use(out_mono(self.edges, self.edges[_k,0], _k+1, self.n_edges))\nuse(deg_mono(self.edges, self.edges[_k,1], _k+1, self.n_edges))')])
    reg.contract(LG + '.get_zero_indegree', params=dict(self=T), requires=['self.n_nodes>=0 and len(self.indegree_map)==self.n_nodes'], ret=TTuple(A1, Int),
                 use_post='use(zc_all(self.indegree_map, self.n_nodes))',
                 ensures=[('how-many', 'result[1]==ZC(self.indegree_map, self.n_nodes) and len(result[0])==self.n_nodes'),
                          ('only-nodes-without-edges-in', 'all(0<=result[0][q] and result[0][q]<self.n_nodes and self.indegree_map[result[0][q]]==0 and ZC(self.indegree_map,result[0][q])==q for q in range(result[1]))'),
                          ('every-node-without-edges-in', 'all(implies(self.indegree_map[v]==0, result[0][ZC(self.indegree_map,v)]==v and 0<=ZC(self.indegree_map,v) and ZC(self.indegree_map,v)<result[1]) for v in range(self.n_nodes))')],
                 loops=[LoopSpec(['n_zero_indegree==ZC(self.indegree_map,_k) and 0<=n_zero_indegree and n_zero_indegree<=_k and len(zero_indegree)==self.n_nodes',
                                  'all(0<=zero_indegree[q] and zero_indegree[q]<_k and self.indegree_map[zero_indegree[q]]==0 and ZC(self.indegree_map,zero_indegree[q])==q for q in range(n_zero_indegree))',
                                  'all(implies(self.indegree_map[v]==0, zero_indegree[ZC(self.indegree_map,v)]==v and 0<=ZC(self.indegree_map,v) and ZC(self.indegree_map,v)<n_zero_indegree) for v in range(_k))'])])
    # a whole object
    GOOD = SHAPE + [('shape', MAXC), ('in-degrees', ' and '.join(DEGS).format(k='self.n_edges'))] + rows('self.n_edges')
    src, dst = 'self.edges[e,0]', 'self.edges[e,1]'
    # S: sorted nodes so far (n of them), P: their places
    def order(S, n, P):
        return ['all(0<={S}[i] and {S}[i]<self.n_nodes and {P}[{S}[i]]==i for i in range({n}))'.format(S=S, n=n, P=P),
                'all(-1<={P}[v] and {P}[v]<{n} and implies({P}[v]>=0, {S}[{P}[v]]==v) for v in range(self.n_nodes))'.format(S=S, n=n, P=P)]

    def common(now):
        return order('sorted_nodes', 'n_sorted', 'pos') + [
            'len(sorted_nodes)==self.n_nodes and len(indegree)==self.n_nodes and len(zero_indegree)==self.n_nodes and len(pos)==self.n_nodes and len(spos)==self.n_nodes and len(done)==self.n_edges',
            '0<=n_sorted and 0<=n_zero_indegree and n_sorted+n_zero_indegree==ZC(indegree, self.n_nodes)',
            'all(sorted_nodes[i]==-1 for i in range(n_sorted, self.n_nodes))',
            'all(0<=zero_indegree[i] and zero_indegree[i]<self.n_nodes and spos[zero_indegree[i]]==i for i in range(n_zero_indegree))',
            'all(-1<=spos[v] and spos[v]<n_zero_indegree and implies(spos[v]>=0, zero_indegree[spos[v]]==v) for v in range(self.n_nodes))',
            'all(iff(indegree[v]==0, pos[v]>=0 or spos[v]>=0) and not (pos[v]>=0 and spos[v]>=0) for v in range(self.n_nodes))',
            'all(indegree[v]==CNT(self.edges, done, v, self.n_edges) for v in range(self.n_nodes))',
            'all((done[e]==0 or done[e]==1) and iff(done[e]==1, {0}) for e in range(self.n_edges))'.format(now),
            'all(implies(pos[{d}]>=0, 0<=pos[{s}] and pos[{s}]<pos[{d}]) for e in range(self.n_edges))'.format(s=src, d=dst)]
    zero = 'forall(lambda v: cnt_zero(self.edges, done, v, self.n_edges), T="Int", pat=CNT(self.edges, done, v, self.n_edges))'
    reg.fn('ZPOS', [('a', None)], None, lambda v, a: zpos(v, a))
    reg.fn('NONE', [('n', None)], None, lambda v, n: LazyArr(Int, (v.scalar(n, Int),), lambda j: mk(Int, z3.IntVal(-1))))
    reg.fn('ZEROS', [('n', None)], None, lambda v, n: LazyArr(Int, (v.scalar(n, Int),), lambda j: mk(Int, z3.IntVal(0))))

    reg.fn('WAITS', [('E', None), ('D', None), ('n', None), ('m', None)], None, lambda v, E, D, n, m: LazyArr(Int, (v.scalar(n, Int),), lambda j: v.spec_fn(reg.specfns['WE'], [E, D, mk(Int, iz(j)), m])))

    def zpos(v, a):
        a = v.as_lazy(a)
        return LazyArr(Int, a.shape, lambda j: mk(Int, z3.If(v.scalar(a.fn(j), Int) == 0, v.scalar(v.spec_fn(reg.specfns['ZC'], [a, mk(Int, iz(j))]), Int), z3.IntVal(-1))))
    reg.external('_Graph.detect_cyclic_graph', names=['self'], ret=TTuple(Int, A1))
    reg.contract(LG + '.detect_cyclic_graph', params=dict(self=T), ret=TTuple(Int, A1), trusted='names one cycle for the message; changes nothing')
    ST = 'self.topological_sorted_nodes'
    FINAL = [('as-many-places-as-nodes', 'len(%s)==self.n_nodes' % ST)]
    reg.contract(LG + '.topological_sort', params=dict(self=T), ghosts=dict(pos=A1, spos=A1, done=A1, prev=A1, ind=A1), requires=GOOD,
                 modifies=['self.topological_sorted_nodes', 'self.cyclic_dependency', 'self.cyclic_path', 'self.placed', 'self.place', 'self.waits', 'pos', 'spos', 'done', 'prev', 'ind'],
                 use_post='use(%s)\nuse(zc_all(indegree, self.n_nodes))\ncheck(all(implies(CNT(self.edges, done, v, self.n_edges)==0, pos[v]>=0) for v in range(self.n_nodes)), "nothing-ready-is-left")\ncheck(forall(lambda v: implies(0<=v and v<self.n_nodes and pos[v]<0, CNT(self.edges, done, v, self.n_edges)!=0), T="Int", pat=pos[v]), "left-over")\nuse(forall(lambda v: cnt_some(self.edges, done, v, self.n_edges), T="Int", pat=WE(self.edges, done, v, self.n_edges)))\nself.waits = WAITS(self.edges, done, self.n_nodes, self.n_edges)\nself.placed = n_sorted\nself.place = pos' % zero,
                 ensures=FINAL + [('each-node-once', ' and '.join(['0<=self.placed and self.placed<=self.n_nodes'] + order(ST, 'self.placed', 'self.place'))),
                          ('rest-is-marked', 'all(%s[i]==-1 for i in range(self.placed, self.n_nodes))' % ST),
                          ('after-what-it-depends-on', 'all(implies(self.place[{d}]>=0, 0<=self.place[{s}] and self.place[{s}]<self.place[{d}]) for e in range(self.n_edges))'.format(s=src, d=dst)),
                          ('left-out-only-behind-a-left-out-predecessor', 'all(implies(self.place[v]<0, 0<=self.waits[v] and self.waits[v]<self.n_edges and %s==v and self.place[%s]<0) for v in range(self.n_nodes))' % (dst.replace('e,', 'self.waits[v],'), src.replace('e,', 'self.waits[v],')))],
                 loops=[LoopSpec(common('pos[%s]>=0' % src), use_init='use(zc_same(self.indegree_map, indegree, self.n_nodes))\nuse(zc_all(indegree, self.n_nodes))\npos = NONE(self.n_nodes)\ndone = ZEROS(self.n_edges)\nspos = ZPOS(self.indegree_map)\n'
                        'use(forall(lambda v: cnt_start(self.edges, done, v, self.n_edges), T="Int", pat=CNT(self.edges, done, v, self.n_edges)))',
                                 use_start='use(%s)\nuse(zc_all(indegree, self.n_nodes))\npos[zero_indegree[n_zero_indegree-1]] = n_sorted\nspos[zero_indegree[n_zero_indegree-1]] = -1' % zero),
                        LoopSpec(common('pos[{0}]>=0 and ({0}!=node or OUT(self.edges, node, e)<_k)'.format(src)) +
                                 ['0<=node and node<self.n_nodes and pos[node]==n_sorted-1'],
                                 use_start='use(%s)\nuse(zc_all(indegree, self.n_nodes))\nprev = done\nind = indegree\n'
                                 'done = setarr(done, self.children_edges[node,_k+1], 1)\n'
                                 'use(forall(lambda v: cnt_mark(self.edges, prev, done, self.children_edges[node,_k+1], v, self.n_edges), T="Int", pat=CNT(self.edges, prev, v, self.n_edges)))\n'
                                 'spos[self.children[node,_k+1]] = n_zero_indegree if indegree[self.children[node,_k+1]]==1 else -1' % zero,
                                 step='use(zc_set(ind, indegree, child, self.n_nodes))\nuse(zc_all(indegree, self.n_nodes))')])

    # the graph object and its lower graph
    F = dict(n_nodes=Int, n_edges=Int, n_children_max=Int, edges=A2, nodes=A1, node_types=A1, indegree_map=A1, children=A2, parent_edges=A2,
             children_edges=A2, topological_sorted_nodes=A1, cyclic_dependency=Int, cyclic_path=A1)
    for f, t in F.items():
        reg.fields[('_Graph', f)] = t
    for f, t in dict(place=A1, placed=Int, waits=A1).items():
        reg.fields[('_Graph', f)] = t
    ends = 'n_nodes>=0 and edges.shape[1]>=2 and all(0<=edges[j,0] and edges[j,0]<n_nodes and 0<=edges[j,1] and edges[j,1]<n_nodes for j in range(edges.shape[0]))'
    ALL = [('nodes', 'self.n_nodes==n_nodes and len(self.nodes)==n_nodes and all(self.nodes[i]==i for i in range(n_nodes))'),
           ('edges', 'self.edges.shape[0]==edges.shape[0] and self.edges.shape[1]==edges.shape[1] and all(self.edges[j,0]==edges[j,0] and self.edges[j,1]==edges[j,1] for j in range(edges.shape[0]))')]
    reg.contract(LG + '.__init__', params=dict(self=TObj('_Graph'), n_nodes=Int, edges=A2, node_types=A1), requires=[('edges-between-nodes', ends)],
                 raises=[('ValueError', many.format('edges', 'edges.shape[0]', 'n_nodes'))], frame=False, modifies=[('self.' + f, t) for f, t in F.items()],
                 ensures=ALL + GOOD)
    ND = TRef('Node')
    reg.refs['Node'] = RefClass(dict(node_type=Int), construct=False)
    G = TObj('Graph', lower_graph=TOpt(T), node_counter=Int, edge_counter=Int, edges=A2, nodes=TList(ND), cyclic_path=A1, cyclic_dependency=Int)
    reg.classes['Graph'] = GR
    L = 'some(self.lower_graph)'
    GEND = 'self.node_counter>=0 and 0<=self.edge_counter and self.edge_counter<=self.edges.shape[0] and self.edges.shape[1]==2 and len(self.nodes)==self.node_counter and ' \
           'all(0<=self.edges[j,0] and self.edges[j,0]<self.node_counter and 0<=self.edges[j,1] and self.edges[j,1]<self.node_counter for j in range(self.edge_counter))'
    low = lambda x: x.replace('self.', L + '.')
    CUR = ['{L}.n_nodes==self.node_counter and len({L}.nodes)==self.node_counter and all({L}.nodes[i]==i for i in range(self.node_counter))'.format(L=L),
           '{L}.n_edges==self.edge_counter and all({L}.edges[j,0]==self.edges[j,0] and {L}.edges[j,1]==self.edges[j,1] for j in range(self.edge_counter))'.format(L=L)]
    reg.contract(GR + '.make_lower_graph', params=dict(self=G, top_sort=False), requires=[('end-points-given', GEND)],
                 raises=[('ValueError', 'True', 'may')], modifies=[('self.lower_graph', TOpt(T))],
                 ensures=[('made', 'not isnone(self.lower_graph)'), ('same-nodes', CUR[0]), ('same-edges', CUR[1])] + [(a, low(x)) for a, x in GOOD])

    # nodes with a rank: nodes no cycle leads to (their predecessors all have a smaller rank)
    WAIT = 'all(implies(P[v]<0, 0<=W[v] and W[v]<m and E[W[v],1]==v and P[E[W[v],0]]<0) for v in range(n))'
    RANK = 'all(implies(R[E[e,1]]>=0, 0<=R[E[e,0]] and R[E[e,0]]<R[E[e,1]]) for e in range(m))'
    reg.lemma('ranked', [('E', A2), ('P', A1), ('W', A1), ('R', A1), ('n', Int), ('m', Int), ('v', Int), ('r', Int)], induct='r', pre=['v'],
              requires=['0<=v', 'v<n', '0<=r', 'R[v]==r', WAIT, RANK, 'all(0<=E[e,0] and E[e,0]<n for e in range(m))'], ensures=['P[v]>=0'])
    P, W = L + '.place', L + '.waits'
    reg.fn('AT', [('P', None), ('c', None), ('u', None)], None, lambda v, P, c, u: LazyArr(Int, (v.as_lazy(P).shape[0],), lambda j: mk(Int, z3.If(
        v.scalar(v.as_lazy(P).fn(j), Int) >= 0, v.scalar(v.as_lazy(P).fn(j), Int), v.scalar(c, Int) + sel(v.read(u.loc)[3], iz(j))))))
    reg.fn('BACK', [('S', None), ('c', None), ('u', None)], None, lambda v, S, c, u: LazyArr(Int, (v.as_lazy(S).shape[0],), lambda j: mk(Int, z3.If(
        iz(j) < v.scalar(c, Int), v.scalar(v.as_lazy(S).fn(j), Int), sel(v.read(u.loc)[2], iz(j) - v.scalar(c, Int))))))
    cached = 'isnone(self.lower_graph) or (%s)' % ' and '.join('(%s)' % x for x in CUR + [low(x) for _, x in GOOD])
    fields = dict(node_counter=Int, edge_counter=Int, edges=A2, nodes=TList(ND), cyclic_path=A1, cyclic_dependency=Int)
    for name, lg, mod in (('', None, [('self.lower_graph', TOpt(T))]),
                          ('#again', T, ['self.lower_graph.' + f for f in ('topological_sorted_nodes', 'cyclic_dependency', 'cyclic_path', 'place', 'placed', 'waits')])):
        reg.contract(GR + '.topological_nodes' + name, params=dict(self=TObj('Graph', **dict(fields, lower_graph=lg)), ignore_cyclic=True), ghosts=dict(rank=A1, at=A1, back=A1), ret=A1,
                     requires=[('end-points-given', GEND), ('cached-order-data-is-current', cached),
                               ('nodes-no-cycle-leads-to', 'len(rank)==self.node_counter and all(implies(rank[self.edges[e,1]]>=0, 0<=rank[self.edges[e,0]] and rank[self.edges[e,0]]<rank[self.edges[e,1]]) for e in range(self.edge_counter))')],
                     raises=[('ValueError', 'True', 'may')],
                     modifies=mod + ['self.cyclic_path', 'at', 'back'],
                     hints={'unsorted_nodes': 'check(all({L}.nodes[v]==v and implies({P}[v]<0, not any({L}.topological_sorted_nodes[i]==v for i in range({L}.n_nodes))) for v in range({L}.n_nodes)), "not-sorted")\n'
                            'check(all(implies({P}[v]<0, {L}.nodes[v] in unsorted_nodes) for v in range({L}.n_nodes)), "left-over-nodes")\n'
                            'check(forall(lambda v: implies(0<=v and v<{L}.n_nodes and {P}[v]<0, v in unsorted_nodes), T="Int", pat={P}[v]), "left-over")\n'
                            'check(all(0<=v and v<{L}.n_nodes and {P}[v]<0 for v in unsorted_nodes), "only-left-over-nodes")\n'
                            'at = AT({P}, {L}.placed, unsorted_nodes)\nback = BACK({L}.topological_sorted_nodes, {L}.placed, unsorted_nodes)\n'
                            'check(forall(lambda v: implies(0<=v and v<{L}.n_nodes and {P}[v]<0, at[v]=={L}.placed+posof(unsorted_nodes, v) and posof(unsorted_nodes, v)>=0 and keyat(unsorted_nodes, posof(unsorted_nodes, v))==v), T="Int", pat={P}[v]), "place-left-over")\n'
                            'check(forall(lambda v: implies(0<=v and v<{L}.n_nodes, 0<=at[v] and at[v]<{L}.placed+len(unsorted_nodes)), T="Int", pat=at[v]), "places")\n'
                            'check(all(0<=back[i] and back[i]<{L}.n_nodes and at[back[i]]==i for i in range({L}.placed+len(unsorted_nodes))), "node-at-a-place")\n'
                            'check(forall(lambda v: implies(0<=v and v<{L}.n_nodes and {P}[v]>=0, at[v]=={P}[v] and {P}[v]<{L}.placed and back[{P}[v]]==v), T="Int", pat={P}[v]), "back-sorted")\n'
                            'check(forall(lambda v: implies(0<=v and v<{L}.n_nodes and {P}[v]<0, back[at[v]]==v), T="Int", pat={P}[v]), "back-left-over")\n'
                            'check(all(back[at[v]]==v for v in range({L}.n_nodes)), "back")\n'
                            'use(hit_all(at, {L}.placed+len(unsorted_nodes), {L}.n_nodes))\nuse(hit_count(at, back, {L}.n_nodes, {L}.placed+len(unsorted_nodes)))\n'
                            'check({L}.placed+len(unsorted_nodes)=={L}.n_nodes, "sorted-and-unsorted-are-all")'.format(P=P, L=L)},
                     use_post='use(forall(lambda v: ranked({L}.edges, {P}, {W}, rank, self.node_counter, {L}.n_edges, v, rank[v]), T="Int", pat={P}[v]))'.format(P=P, W=W, L=L),
                     ensures=[('as-many-entries-as-nodes', 'len(result)==self.node_counter'),
                              ('entries-are-nodes', 'all(0<=result[i] and result[i]<self.node_counter for i in range(self.node_counter))'),
                              ('no-node-twice', 'all(implies(i!=j, result[i]!=result[j]) for i in range(self.node_counter) for j in range(self.node_counter))'),
                              ('place-of-a-node', 'all(implies(rank[v]>=0, 0<={P}[v] and {P}[v]<self.node_counter and result[{P}[v]]==v) for v in range(self.node_counter))'.format(P=P)),
                              ('after-what-it-depends-on', 'all(implies(rank[self.edges[e,1]]>=0, {P}[self.edges[e,0]]<{P}[self.edges[e,1]]) for e in range(self.edge_counter))'.format(P=P)),
                              ('asking-again-has-the-same-guarantees', cached)])

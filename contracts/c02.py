"""The graph container: numbering, edges, queries, copies."""
from pyvc.spec import *
from pyvc.vals import ExtObj

EXPLAIN = 'Graph.add_node, add_edge, set_edge, remove_node, remove_edge, clean, build_node_edges, get_edges_type_for_node_filter, has_edge_for_nodes, ' \
          'get_where_node_attr and clone against one object invariant (keys and numbers inverse, edge data at edge numbers, cached edge lists equal to a recount).'
ASSUME = ['copying an edge object copies its data', 'a key made up for a nameless node is not empty']
GR = 'numerous.engine.model.graph_representation.graph:Graph'


def build(reg):
    A2 = TArr(Int, 2)
    reg.enums['EdgeType'] = 'numerous.engine.model.graph_representation.utils:EdgeType'
    reg.int_enums.add('EdgeType')
    ET = TEnum('EdgeType')
    N, E = TRef('GNode'), TRef('Edge')
    reg.refs['GNode'] = RefClass(dict(key=TOpt(Str), node_n=Int, deleted=Bool, node_type=Int), construct=False)
    reg.refs['Edge'] = RefClass(dict(start=Int, end=Int, e_type=ET, deleted=Bool, edge_n=Int), construct=False)
    reg.fn('OUT', [('E', A2), ('u', Int), ('k', Int)], Int, '0 if k<=0 else OUT(E,u,k-1)+(1 if E[k-1,0]==u else 0)', rec=True)
    reg.fn('DEG', [('E', A2), ('v', Int), ('k', Int)], Int, '0 if k<=0 else DEG(E,v,k-1)+(1 if E[k-1,1]==v else 0)', rec=True)
    reg.lemma('deg_mono', [('E', A2), ('v', Int), ('j', Int), ('k', Int)], induct='k', requires=['0<=j', 'j<=k'], ensures=['DEG(E,v,j)<=DEG(E,v,k)', 'implies(j<k and E[j,1]==v, DEG(E,v,j)<DEG(E,v,k))'])
    reg.lemma('out_mono', [('E', A2), ('u', Int), ('j', Int), ('k', Int)], induct='k', requires=['0<=j', 'j<=k'], ensures=['OUT(E,u,j)<=OUT(E,u,k)', 'implies(j<k and E[j,0]==u, OUT(E,u,j)<OUT(E,u,k))'])
    reg.lemma('deg_pos', [('E', A2), ('v', Int), ('k', Int)], induct='k', requires=['0<=k'], ensures=['0<=DEG(E,v,k)'])
    reg.lemma('out_pos', [('E', A2), ('u', Int), ('k', Int)], induct='k', requires=['0<=k'], ensures=['0<=OUT(E,u,k)'])
    LISTS = TList(TTuple(TList(Int), TList(Int)))
    FIELDS = dict(preallocate_items=Int, allocated=Int, edge_counter=Int, node_counter=Int, node_map=TDict(Str, Int), key_map=TDict(Int, Str),
                  nodes=TList(N), edges_c=TList(E), edges=A2, lower_graph=TOpt(TAny()), node_edges=TOpt(LISTS))
    G = TObj('Graph', **FIELDS)
    reg.classes['Graph'] = GR
    for f, t in FIELDS.items():
        reg.fields[('Graph', f)] = t

    # the invariant
    def shape(g='self'):
        return [('numbers-are-keys', 'all(i in self.key_map and self.key_map[i] in self.node_map and self.node_map[self.key_map[i]]==i for i in range(self.node_counter))'),
                ('keys-are-numbers', 'all(0<=self.node_map[k] and self.node_map[k]<self.node_counter and self.key_map[self.node_map[k]]==k for k in self.node_map)'),
                ('one-node-per-number', 'self.node_counter==len(self.nodes) and self.node_counter<=self.allocated'),
                ('stored-nodes', 'all(self.nodes[i].node_n==i and not isnone(self.nodes[i].key) and some(self.nodes[i].key)==self.key_map[i] and some(self.nodes[i].key)!="" for i in range(self.node_counter))'),
                ('one-edge-per-number', 'self.edge_counter==len(self.edges_c) and self.edge_counter<=self.allocated and self.edges.shape[0]==self.allocated and self.edges.shape[1]==2'),
                ('stored-edges', 'all(self.edges_c[j].edge_n==j for j in range(self.edge_counter))'),
                ('unused-edges', 'all(self.edges[j,0]==-1 and self.edges[j,1]==-1 for j in range(self.edge_counter, self.allocated))')]

    C = 'some(self.node_edges)'

    def lists(k, C='some(self.node_edges)', n='self.node_counter', E='self.edges'):
        return ['len(%s)==%s' % (C, n),
                'all(len({C}[v][0])==OUT({E},v,{k}) and len({C}[v][1])==DEG({E},v,{k}) for v in range({n}))'.format(C=C, n=n, k=k, E=E),
                'all(0<={C}[v][0][q] and {C}[v][0][q]<{k} and {E}[{C}[v][0][q],0]==v and OUT({E},v,{C}[v][0][q])==q for v in range({n}) for q in range(len({C}[v][0])))'.format(C=C, n=n, k=k, E=E),
                'all(0<={C}[v][1][q] and {C}[v][1][q]<{k} and {E}[{C}[v][1][q],1]==v and DEG({E},v,{C}[v][1][q])==q for v in range({n}) for q in range(len({C}[v][1])))'.format(C=C, n=n, k=k, E=E),
                'all(implies(p<q, {C}[v][0][p]<{C}[v][0][q]) for v in range({n}) for p in range(len({C}[v][0])) for q in range(len({C}[v][0])))'.format(C=C, n=n),
                'all(implies(p<q, {C}[v][1][p]<{C}[v][1][q]) for v in range({n}) for p in range(len({C}[v][1])) for q in range(len({C}[v][1])))'.format(C=C, n=n),
                'all({C}[{E}[e,0]][0][OUT({E},{E}[e,0],e)]==e and 0<=OUT({E},{E}[e,0],e) and OUT({E},{E}[e,0],e)<len({C}[{E}[e,0]][0]) for e in range({k}))'.format(C=C, n=n, k=k, E=E),
                'all({C}[{E}[e,1]][1][DEG({E},{E}[e,1],e)]==e and 0<=DEG({E},{E}[e,1],e) and DEG({E},{E}[e,1],e)<len({C}[{E}[e,1]][1]) for e in range({k}))'.format(C=C, n=n, k=k, E=E)]
    NE = 'self.node_edges'
    CACHE = ('cached-edge-lists-are-current', 'isnone(self.node_edges) or (%s)' % ' and '.join('(%s)' % x for x in lists('self.edge_counter')))
    INV = shape()
    ENDS = ('end-points-given', 'all(0<=self.edges[j,0] and self.edges[j,0]<self.node_counter and 0<=self.edges[j,1] and self.edges[j,1]<self.node_counter for j in range(self.edge_counter))')
    reg.external('tmp_generator', names=[], ret=Str, ensures=[('not-empty', 'result!=""')])
    reg.globals[('numerous.engine.model.graph_representation.graph', 'tmp_generator')] = ExtObj(reg.externals['tmp_generator'])
    DROPPED = ('derived-data-dropped', 'isnone(self.node_edges) and isnone(self.lower_graph)')
    reg.contract(GR + '._changed', params=dict(self=G), modifies=['self.node_edges', 'self.lower_graph'], ensures=[DROPPED])
    kk = 'some(node.key)'
    new = "not (some(node.key) in old(self.node_map))"
    reg.contract(GR + '.add_node', params=dict(self=G, node=N, ignore_existing=Bool, skip_existing=Bool), ret=Int,
                 requires=INV + [CACHE, ('not-stored-under-another-key', 'all(implies(refid(self.nodes[i])==refid(node), not isnone(node.key) and some(node.key)==self.key_map[i]) for i in range(self.node_counter))')],
                 modifies=['self.node_edges', 'self.lower_graph', 'self.node_map', 'self.key_map', 'self.node_counter', 'self.nodes', 'node.key', 'node.node_n'],
                 raises=[('ValueError', 'not ignore_existing and not skip_existing and not isnone(node.key) and some(node.key) in self.node_map or self.node_counter>=self.allocated or isnone(node.key) or some(node.key)==""', 'may')],
                 ensures=INV + [CACHE, ('keeps-its-key', 'not isnone(node.key) and implies(not isnone(old(node.key)) and some(old(node.key))!="", some(node.key)==some(old(node.key)))'),
                                ('new-key-gets-the-next-number', 'implies({new}, result==old(self.node_counter) and self.node_counter==old(self.node_counter)+1 and refid(self.nodes[result])==refid(node))'.format(new=new)),
                                ('known-key-gets-its-number', 'implies(not {new}, result==old(self.node_map)[{kk}] and self.node_counter==old(self.node_counter))'.format(new=new, kk=kk)),
                                ('known-key-keeps-its-node', 'implies(not {new} and not ignore_existing, all(refid(self.nodes[i])==refid(old(self.nodes)[i]) for i in range(self.node_counter)) and old(node.node_n)==node.node_n)'.format(new=new)),
                                ('replacement-is-stored', 'implies(not {new} and ignore_existing, refid(self.nodes[result])==refid(node))'.format(new=new)),
                                ('number-of-its-key', 'some(node.key) in self.node_map and self.node_map[some(node.key)]==result'),
                                ('other-keys-kept', 'all(implies(k!=%s, iff(k in self.node_map, k in old(self.node_map)) and implies(k in self.node_map, self.node_map[k]==old(self.node_map)[k])) for k in strs())' % kk),
                                ('other-nodes-kept', 'all(implies(i!=result, refid(self.nodes[i])==refid(old(self.nodes)[i]) and self.key_map[i]==old(self.key_map)[i]) for i in range(old(self.node_counter)))')])
    reg.contract(GR + '.add_edge', params=dict(self=G, edge=E), ret=Int,
                 requires=INV + [CACHE, ('not-stored-yet', 'all(refid(self.edges_c[j])!=refid(edge) for j in range(self.edge_counter))')],
                 modifies=['self.node_edges', 'self.lower_graph', 'self.edges', 'self.edge_counter', 'self.edges_c', 'edge.edge_n'],
                 raises=[('IndexError', 'self.edge_counter>=self.allocated', 'iff'), ('ValueError', 'self.edge_counter>=self.allocated', 'may')],
                 ensures=INV + [CACHE, ('next-number', 'result==old(self.edge_counter) and self.edge_counter==old(self.edge_counter)+1'),
                                ('end-points-recorded', 'self.edges[result,0]==edge.start and self.edges[result,1]==edge.end'),
                                ('data-recorded', 'refid(self.edges_c[result])==refid(edge) and edge.edge_n==result'),
                                ('other-edges-kept', 'all(implies(j!=result, self.edges[j,0]==old(self.edges)[j,0] and self.edges[j,1]==old(self.edges)[j,1]) for j in range(self.allocated)) and '
                                 'all(refid(self.edges_c[j])==refid(old(self.edges_c)[j]) for j in range(old(self.edge_counter)))')])
    reg.contract(GR + '.set_edge', params=dict(self=G, edge=Int, start=TOpt(Int), end=TOpt(Int)), requires=INV + [CACHE, ('a-stored-edge', '0<=edge and edge<self.edge_counter')],
                 modifies=['self.node_edges', 'self.lower_graph', 'self.edges'],
                 ensures=INV + [CACHE, ('the-end-points-given', 'implies(not isnone(start), self.edges[edge,0]==some(start)) and implies(not isnone(end), self.edges[edge,1]==some(end))'),
                                ('the-others-kept', 'implies(isnone(start), self.edges[edge,0]==old(self.edges)[edge,0]) and implies(isnone(end), self.edges[edge,1]==old(self.edges)[edge,1]) and '
                                 'all(implies(j!=edge, self.edges[j,0]==old(self.edges)[j,0] and self.edges[j,1]==old(self.edges)[j,1]) for j in range(self.allocated))')])
    reg.contract(GR + '.remove_node', params=dict(self=G, node_n=Int), requires=INV + [CACHE, ('a-stored-node', '0<=node_n and node_n<self.node_counter')], modifies=['GNode.deleted'],
                 ensures=INV + [CACHE, ('only-it-is-gone', "forall(lambda n: n.deleted==(True if refid(n)==refid(self.nodes[node_n]) else old(n.deleted)), T='GNode')")])
    reg.contract(GR + '.remove_edge', params=dict(self=G, edge_n=Int), requires=INV + [CACHE, ('a-stored-edge', '0<=edge_n and edge_n<self.edge_counter')], modifies=['Edge.deleted'],
                 ensures=INV + [CACHE, ('only-it-is-gone', "forall(lambda e: e.deleted==(True if refid(e)==refid(self.edges_c[edge_n]) else old(e.deleted)), T='Edge')")])
    reg.contract(GR + '.clean', params=dict(self=G), requires=INV, modifies=['self.node_edges', 'self.lower_graph'], ensures=INV + [CACHE, DROPPED])
    reg.contract(GR + '.build_node_edges', params=dict(self=G), requires=INV + [ENDS], modifies=['self.node_edges'],
                 ensures=[('lists-built', 'not isnone(self.node_edges)'), CACHE],
                 use_post='use(forall(lambda v, j: out_mono(self.edges, v, j, self.edge_counter), T="Int Int", pat=OUT(self.edges,v,j)))',
                 loops=[LoopSpec(['not isnone(self.node_edges)'] + lists('_k'),
                                 use_start='use(forall(lambda v, j: out_mono(self.edges, v, j, _k), T="Int Int", pat=OUT(self.edges,v,j)))\n'
                                 'use(forall(lambda v, j: deg_mono(self.edges, v, j, _k), T="Int Int", pat=DEG(self.edges,v,j)))')])
    live = 'not self.edges_c[{j}].deleted and self.edges_c[{j}].e_type==val'
    at = '((not isnone(start_node) and self.edges[{j},0]==some(start_node)) or (not isnone(end_node) and self.edges[{j},1]==some(end_node)))'
    one = 'isnone(start_node)!=isnone(end_node)'
    reg.contract(GR + '.get_edges_type_for_node_filter', params=dict(self=G, start_node=TOpt(Int), end_node=TOpt(Int), val=ET), ret=TTuple(TList(Int), TList(TArr(Int))),
                 requires=INV + [ENDS, CACHE, ('nodes-of-the-graph', 'implies(not isnone(start_node), 0<=some(start_node) and some(start_node)<self.node_counter) and implies(not isnone(end_node), 0<=some(end_node) and some(end_node)<self.node_counter)')],
                 modifies=['self.node_edges'], raises=[('ValueError', 'not (%s)' % one, 'iff')],
                 hints={'ix_r': 'check(all(0<=ix[q] and ix[q]<self.edge_counter for q in range(len(ix))), "edge-numbers")\n'
                              'check(all(implies({a}, 0<=({P}) and ({P})<len(ix) and ix[{P}]==j) for j in range(self.edge_counter)), "listed")'.format(
                                  a=at.format(j='j'), P='OUT(self.edges,some(start_node),j) if not isnone(start_node) else DEG(self.edges,some(end_node),j)')},
                 ensures=[CACHE, ('only-live-edges-of-that-kind-at-that-node', 'all(0<=result[0][q] and result[0][q]<self.edge_counter and {l} and {a} for q in range(len(result[0])))'.format(l=live.format(j='result[0][q]'), a=at.format(j='result[0][q]'))),
                          ('every-such-edge', 'all(implies({l} and {a}, any(result[0][q]==j for q in range(len(result[0])))) for j in range(self.edge_counter))'.format(l=live.format(j='j'), a=at.format(j='j'))),
                          ('in-insertion-order', 'all(implies(p<q, result[0][p]<result[0][q]) for p in range(len(result[0])) for q in range(len(result[0])))'),
                          ('with-their-end-points', 'len(result[1])==len(result[0]) and all(len(result[1][q])==2 and result[1][q][0]==self.edges[result[0][q],0] and result[1][q][1]==self.edges[result[0][q],1] for q in range(len(result[0])))')])
    reg.contract(GR + '.has_edge_for_nodes', params=dict(self=G, start_node=Int, end_node=Int), ret=TArr(Int), requires=INV,
                 ensures=[('only-edges-between-them', 'all(0<=result[q] and result[q]<self.edge_counter and self.edges[result[q],0]==start_node and self.edges[result[q],1]==end_node for q in range(len(result)))'),
                          ('every-edge-between-them', 'all(implies(self.edges[j,0]==start_node and self.edges[j,1]==end_node, any(result[q]==j for q in range(len(result)))) for j in range(self.edge_counter))')])
    reg.contract(GR + '.has_edge_for_nodes#from', params=dict(self=G, start_node=Int, end_node=None), ret=Bool, requires=INV + [('a-node', '0<=start_node')],
                 ensures=[('whether-an-edge-leaves-it', 'iff(result, any(self.edges[j,0]==start_node for j in range(self.edge_counter)))')])
    reg.contract(GR + '.has_edge_for_nodes#to', params=dict(self=G, start_node=None, end_node=Int), ret=Bool, requires=INV + [('a-node', '0<=end_node')],
                 ensures=[('whether-an-edge-enters-it', 'iff(result, any(self.edges[j,1]==end_node for j in range(self.edge_counter)))')])
    for name, st, en, col, x in (('#from', Int, None, 0, 'start_node'), ('#to', None, Int, 1, 'end_node')):
        reg.contract(GR + '.get_edges_for_node' + name, params=dict(self=G, start_node=st, end_node=en), ret=TList(TTuple(TArr(Int), TArr(Int))), requires=INV,
                     ensures=[('only-edges-of-the-node', 'all(0<=result[q][0][0] and result[q][0][0]<self.edge_counter and self.edges[result[q][0][0],{c}]=={x} for q in range(len(result)))'.format(c=col, x=x)),
                              ('every-edge-of-the-node', 'all(implies(self.edges[j,{c}]=={x}, any(result[q][0][0]==j for q in range(len(result)))) for j in range(self.edge_counter))'.format(c=col, x=x)),
                              ('with-their-end-points', 'all(result[q][1][0]==self.edges[result[q][0][0],0] and result[q][1][1]==self.edges[result[q][0][0],1] for q in range(len(result)))')])
    want = 'not self.nodes[{i}].deleted and (self.nodes[{i}].node_type==val)!=not_'
    reg.contract(GR + '.get_where_node_attr', params=dict(self=G, attr=lambda v, env: 'node_type', val=Int, not_=Bool), ret=TList(Int), requires=INV,
                 ensures=[('only-matching-nodes', 'all(0<=result[q] and result[q]<self.node_counter and %s for q in range(len(result)))' % want.format(i='result[q]')),
                          ('every-matching-node', 'all(implies(%s, any(result[q]==i for q in range(len(result)))) for i in range(self.node_counter))' % want.format(i='i')),
                          ('in-order', 'all(implies(p<q, result[p]<result[q]) for p in range(len(result)) for q in range(len(result)))')])
    new_inv = [(a, x.replace('self.', 'result.')) for a, x in INV]
    same_e = 'result.edges_c[j].start==self.edges_c[j].start and result.edges_c[j].end==self.edges_c[j].end and result.edges_c[j].e_type==self.edges_c[j].e_type and result.edges_c[j].deleted==self.edges_c[j].deleted'
    reg.contract(GR + '.clone', params=dict(self=G), ret=G, requires=INV + [('not-grown', 'self.allocated==self.preallocate_items')],
                 ensures=new_inv + [('same-numbers', 'same(result.node_map, self.node_map) and same(result.key_map, self.key_map) and result.node_counter==self.node_counter and result.edge_counter==self.edge_counter'),
                                    ('same-nodes', 'all(refid(result.nodes[i])==refid(self.nodes[i]) for i in range(self.node_counter))'),
                                    ('same-end-points', 'all(result.edges[j,0]==self.edges[j,0] and result.edges[j,1]==self.edges[j,1] for j in range(self.edge_counter))'),
                                    ('equal-edge-data', 'all(%s for j in range(self.edge_counter))' % same_e),
                                    ('own-edge-data', 'all(refid(result.edges_c[j])!=refid(self.edges_c[i]) for j in range(self.edge_counter) for i in range(self.edge_counter))')])

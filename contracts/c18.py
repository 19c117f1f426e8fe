"""Sums of contributions: collecting them, temporaries, sum nodes, and the mapping emitted for a sum node."""
import z3
from pyvc.spec import *
from pyvc.types import StrSort
from pyvc.vals import *

EXPLAIN = 'EquationGenerator._process_sum_node (for a variable outside sets) and MappingsGraph.add_mappings, remove_chains and create_assignments (scalars and sets): every contribution once.'
ASSUME = ['the graph queries answer as C02 proves they do', 'sums over set elements are run bounded', 'an equation writes a variable once and its assignments were collected (remove_chains)', 'floating-point values treated as reals']
EG = 'numerous.engine.model.lowering.equations_generator:EquationGenerator'
MG = 'numerous.engine.model.graph_representation.mappings_graph:MappingsGraph'
I, R = z3.IntSort(), z3.RealSort()


def build(reg):
    VA = TTuple(Str, Bool)
    VA.names = ['name', 'is_global_var']
    PAIR = TTuple(Int, TOpt(Int))
    MAPS = TOpt(TList(TTuple(Int, Int)), lit=':')
    V, N, E = TRef('SVar'), TRef('SNode'), TRef('SEdge')
    reg.refs['SVar'] = RefClass(dict(size=Int, id=Str), construct=False)
    reg.refs['SNode'] = RefClass(dict(scope_var=V, node_type=Int, is_set_var=Bool), construct=False)
    reg.refs['SEdge'] = RefClass(dict(mappings=MAPS), construct=False)
    for c, f in (('SVar', dict(size=Int, id=Str)), ('SNode', dict(scope_var=V, node_type=Int, is_set_var=Bool)), ('SEdge', dict(mappings=MAPS))):
        for k, t in f.items():
            reg.fields[(c, k)] = t
    GF = dict(nodes=TList(N), edges_c=TList(E), key_map=TDict(Int, Str))
    PF = dict(log_n=Int, log_t=TArr(Str), log_v=TArr(Real))
    G, P = TObj('EGraph', **GF), TObj('GenProg', **PF)
    reg.enums['EdgeType'] = 'numerous.engine.model.graph_representation.utils:EdgeType'
    reg.int_enums.add('EdgeType')
    ET = TEnum('EdgeType')
    F = dict(equation_graph=G, generated_program=P, set_variables=TDict(Str, V), scope_variables=TDict(Str, V))
    S = TObj('EquationGenerator', **F)
    reg.classes['EquationGenerator'] = EG
    for c, f in (('EGraph', GF), ('GenProg', PF), ('EquationGenerator', F)):
        for k, t in f.items():
            reg.fields[(c, k)] = t

    def fn(name, ret, *args):
        f = z3.Function('c18_' + name, *[a.sort for a in args], ret.sort)
        reg.fn(name, [('a%d' % i, None) for i in range(len(args))], None, lambda v, *xs: mk(ret, f(*[v.scalar(x, a) for x, a in zip(xs, args)])))
    fn('VAL', Real, Str)                                # the value of a variable
    fn('NV', Int, Int), fn('VI', Int, Int, Int)         # value edges into a node
    fn('NT', Int, Int), fn('TI', Int, Int, Int)         # target edges out of a node
    fn('ES', Int, Int), fn('EE', Int, Int)              # start and end of an edge
    fn('MN', Int, Int), fn('MS', Int, Int, Int)         # entries of an edge and the source element of each
    fn('NAME', Str, Int, Int)                           # name of element i of the variable of a node
    fn('ELEM', Str, V, Int)
    fn('DU', Str, Str)
    reg.fn('PE', [('v', Int), ('e', Int), ('k', Int)], Real, '0 if k<=0 else PE(v,e,k-1)+VAL(NAME(v,MS(e,k-1)))', rec=True)
    reg.fn('TOT', [('n', Int), ('k', Int)], Real, '0 if k<=0 else TOT(n,k-1)+PE(ES(VI(n,k-1)),VI(n,k-1),MN(VI(n,k-1)))', rec=True)
    reg.fn('CNT', [('n', Int), ('k', Int)], Int, '0 if k<=0 else CNT(n,k-1)+MN(VI(n,k-1))', rec=True)
    reg.fn('SUMR', [('x', TArr(Real)), ('k', Int)], Real, '0 if k<=0 else SUMR(x,k-1)+x[k-1]', rec=True)
    reg.lemma('sum_same', [('x', TArr(Real)), ('y', TArr(Real)), ('k', Int)], induct='k', requires=['0<=k', 'all(y[j]==x[j] for j in range(k))'], ensures=['SUMR(x,k)==SUMR(y,k)'])
    reg.lemma('pe_one', [('v', Int), ('e', Int)], ensures=['PE(v,e,1)==VAL(NAME(v,MS(e,0)))'])
    reg.lemma('tot_step', [('n', Int), ('k', Int)], requires=['0<=k'], ensures=['TOT(n,k+1)==TOT(n,k)+PE(ES(VI(n,k)),VI(n,k),MN(VI(n,k)))', 'CNT(n,k+1)==CNT(n,k)+MN(VI(n,k))'])
    reg.fn('PAIRS', [('x', None)], None, lambda v, x: LazyArr(Real, (iz(v.seq_of(x).n),), lambda j: v.spec_fn(v.reg.specfns['PVAL'], [v.getitem(x, mk(Int, iz(j)))])))
    reg.fn('ARGS', [('x', None)], None, lambda v, x: LazyArr(Real, (iz(v.seq_of(x).n),), lambda j: v.spec_fn(v.reg.specfns['AVAL'], [v.getitem(x, mk(Int, iz(j)))])))
    reg.fn('PVAL', [('p', None)], None, 'VAL(NAME(p[0], 0 if isnone(p[1]) else some(p[1])))')
    reg.fn('AVAL', [('p', None)], None, 'VAL(p[0])')
    reg.external('d_u', names=['s'], ret=Str, returns='DU(s)')
    reg.globals[('numerous.utils.string_utils', 'd_u')] = ExtObj(reg.externals['d_u'])
    reg.external('EGraph.get_edges_type_for_node_filter', names=['self', 'start_node', 'end_node', 'val'], ret=TTuple(TList(Int), TList(TArr(Int))),
                 ensures=[('how-many', 'len(result[0])==len(result[1]) and implies(isnone(start_node), len(result[0])==NV(some(end_node))) and implies(isnone(end_node), len(result[0])==NT(some(start_node)))'),
                          ('value-edges', 'implies(isnone(start_node), len(result[0])==NV(some(end_node)) and len(result[1])==len(result[0]) and all(result[0][q]==VI(some(end_node),q) for q in range(len(result[0]))))'),
                          ('target-edges', 'implies(isnone(end_node), len(result[0])==NT(some(start_node)) and len(result[1])==len(result[0]) and all(result[0][q]==TI(some(start_node),q) for q in range(len(result[0]))))'),
                          ('the-only-target', 'implies(isnone(end_node) and NT(some(start_node))==1, result[1][0][1]==EE(TI(some(start_node),0)))'),
                          ('end-points', 'all(len(result[1][q])==2 and result[1][q][0]==ES(result[0][q]) and result[1][q][1]==EE(result[0][q]) for q in range(len(result[0])))')])
    reg.external('SVar.get_var_by_idx', names=['self', 'i'], ret=V, ensures=[('that-element', 'result.id==ELEM(self,i)')])
    reg.refs['SVar'].consts['get_var_by_idx'] = ExtObj(reg.externals['SVar.get_var_by_idx'])
    reg.external('GenProg.add_mapping', names=['self', 'args', 'targets'], ret=None, modifies=['self.log_n', 'self.log_t', 'self.log_v'],
                 requires=[('one-target', 'len(targets)==1'), ('something-to-assign', 'len(args)>0'), ('no-globals', 'not targets[0].is_global_var and all(not a.is_global_var for a in args)')],
                 ensures=[('one-more', 'self.log_n==old(self.log_n)+1 and self.log_t[old(self.log_n)]==targets[0].name and self.log_v[old(self.log_n)]==SUMR(ARGS(args), len(args))'),
                          ('others-kept', 'all(self.log_t[j]==old(self.log_t)[j] and self.log_v[j]==old(self.log_v)[j] for j in range(old(self.log_n)))')])
    g = 'self.equation_graph'
    t = 'EE(TI(n,0))'
    meaning = [('entries', 'all(MN(e)==(1 if isnone({g}.edges_c[e].mappings) else len(some({g}.edges_c[e].mappings))) for e in range(len({g}.edges_c)))'.format(g=g)),
               ('sources', 'all(MS(e,j)==(0 if isnone({g}.edges_c[e].mappings) else some({g}.edges_c[e].mappings)[j][0]) for e in range(len({g}.edges_c)) for j in range(MN(e)))'.format(g=g)),
               ('names', 'forall(lambda v, i: implies(v in {g}.key_map, NAME(v,i)==(DU({g}.key_map[v]) if DU({g}.key_map[v]) in self.scope_variables else ELEM(self.set_variables[DU({g}.key_map[v])],i))), T="Int Int", pat=NAME(v,i))'.format(g=g))]
    val_e = 'VI(n,q)'
    graph = [('value-edges', 'NV(n)>=0 and all(0<={e} and {e}<len({g}.edges_c) and ES({e}) in {g}.key_map for q in range(NV(n)))'.format(e=val_e, g=g)),
             ('known-sources', 'all(DU({g}.key_map[ES({e})]) in self.scope_variables or DU({g}.key_map[ES({e})]) in self.set_variables for q in range(NV(n)))'.format(e=val_e, g=g)),
             ('whole-sources-are-no-sets', 'all(implies(isnone({g}.edges_c[{e}].mappings), DU({g}.key_map[ES({e})]) in self.scope_variables) for q in range(NV(n)))'.format(e=val_e, g=g)),
             ('one-target', 'implies(NT(n)==1, 0<={t} and {t}<len({g}.nodes) and {t} in {g}.key_map)'.format(t=t, g=g))]
    L = 'self.generated_program'
    M0 = 'target_indcs_map[0]'
    KNOWN = '{m}[q][0] in {g}.key_map and (DU({g}.key_map[{m}[q][0]]) in self.scope_variables or DU({g}.key_map[{m}[q][0]]) in self.set_variables and not isnone({m}[q][1]))'.format(m=M0, g=g)
    def argsok(k):
        return [('only-the-target', 'all(x==target_var for x in mapping_dict)'),
                ('present', '(target_var in mapping_dict)==({k}>0)'.format(k=k)), ('how-many', 'implies({k}>0, len(mapping_dict[target_var])=={k})'.format(k=k)),
                ('no-globals', 'implies({k}>0, all(not x.is_global_var for x in mapping_dict[target_var]))'.format(k=k)),
                ('sum', 'implies({k}>0, SUMR(ARGS(mapping_dict[target_var]),{k})==SUMR(PAIRS({m}),{k}))'.format(k=k, m=M0))]
    made = [('one-list', 'len(target_indcs_map)==1')]
    none = [LoopSpec([('', 'True')]) for _ in range(11)]         # loops only reached for sets
    LOOPS = none[:10] + [
        LoopSpec(made + [('sum-so-far', 'SUMR(PAIRS({m}),len({m}))==TOT(n,_k)'.format(m=M0)), ('count', 'len({m})==CNT(n,_k)'.format(m=M0)), ('known', 'all(%s for q in range(len({m})))'.format(m=M0) % KNOWN)], index='_k', use_start='pm = {m}'.format(m=M0), step='use(tot_step(n,_k)); check(implies(isnone({g}.edges_c[vi].mappings), MN(vi)==1 and MS(vi,0)==0), "one-entry"); check(v[0]==ES(vi), "from"); use(pe_one(ES(vi),vi)); use(tot_step(n,_k)); check(implies(isnone({g}.edges_c[vi].mappings), PE(ES(vi),vi,1)==VAL(NAME(v[0],0))), "one"); check(implies(isnone({g}.edges_c[vi].mappings), PE(ES(vi),vi,MN(vi))==VAL(NAME(v[0],0))), "whole"); use(sum_same(PAIRS(pm), PAIRS({m}), len(pm))); check(implies(isnone({g}.edges_c[vi].mappings), SUMR(PAIRS({m}),len(pm))==TOT(n,_k)), "before"); check(implies(isnone({g}.edges_c[vi].mappings), PVAL({m}[len(pm)])==VAL(NAME(v[0],0))), "added"); check(implies(isnone({g}.edges_c[vi].mappings), SUMR(PAIRS({m}),len(pm)+1)==SUMR(PAIRS({m}),len(pm))+PVAL({m}[len(pm)])), "unfolded")'.format(m=M0,g=g)),
        none[10],
        LoopSpec(made + [('sum-so-far', 'SUMR(PAIRS({m}),len({m}))==TOT(n,_k)+PE(ES(VI(n,_k)),VI(n,_k),_j)'.format(m=M0)), ('count', 'len({m})==CNT(n,_k)+_j'.format(m=M0)), ('known', 'all(%s for q in range(len({m})))'.format(m=M0) % KNOWN)], index='_j', use_start='pm = {m}'.format(m=M0), step='use(sum_same(PAIRS(pm), PAIRS({m}), len(pm)))'.format(m=M0, g=g)),
        LoopSpec(argsok('(len(%s) if _a>0 else 0)' % M0), index='_a'),
        LoopSpec(argsok('_b'), index='_b', step='check(VAL(mapping_dict[target_var][_b].name)==PVAL(target_indcs_map[0][_b]), "argument"); use(sum_same(ARGS(old_args), ARGS(mapping_dict[target_var]), _b)); check(SUMR(ARGS(mapping_dict[target_var]),_b+1)==SUMR(ARGS(mapping_dict[target_var]),_b)+VAL(mapping_dict[target_var][_b].name), "unfolded"); check(SUMR(PAIRS(target_indcs_map[0]),_b+1)==SUMR(PAIRS(target_indcs_map[0]),_b)+PVAL(target_indcs_map[0][_b]), "unfolded-pairs")', use_start='old_args = mapping_dict[target_var]'),
        LoopSpec([('log', '_c<=1 and {L}.log_n==old({L}.log_n)+_c'.format(L=L)), ('assigned', 'implies(_c==1, {L}.log_t[old({L}.log_n)]==target_var and {L}.log_v[old({L}.log_n)]==SUMR(ARGS(mapping_dict[target_var]),len(mapping_dict[target_var])))'.format(L=L)),
                  ('kept', 'all({L}.log_t[j]==old({L}.log_t)[j] and {L}.log_v[j]==old({L}.log_v)[j] for j in range(old({L}.log_n)))'.format(L=L))], index='_c')]
    reg.contract(EG + '._process_sum_node#scalar', params=dict(self=S, n=Int), modifies=[L + '.log_n', L + '.log_t', L + '.log_v'], raises=[('ValueError', 'NT(n)!=1', 'iff')],
                 locals=dict(target_indcs_map=TList(TList(PAIR)), mapping_dict=TDict(Str, TList(VA))),
                 requires=meaning + graph + [('not-a-set', 'implies(NT(n)==1, {g}.nodes[{t}].scope_var.size<=0 and not {g}.nodes[{t}].is_set_var and not ({g}.key_map[{t}] in self.set_variables))'.format(g=g, t=t)),
                           ('entries-for-it', 'all(implies(not isnone({g}.edges_c[{e}].mappings), all(-1<=some({g}.edges_c[{e}].mappings)[j][1] and some({g}.edges_c[{e}].mappings)[j][1]<=0 for j in range(MN({e})))) for q in range(NV(n)))'.format(e=val_e, g=g))],
                 loops=LOOPS, lexical=True,
                 ensures=[('assigned-once', '{L}.log_n==old({L}.log_n)+(1 if CNT(n,NV(n))>0 else 0)'.format(L=L)),
                          ('the-sum-of-all-contributions', 'implies(CNT(n,NV(n))>0, {L}.log_t[old({L}.log_n)]=={g}.key_map[{t}] and {L}.log_v[old({L}.log_n)]==TOT(n,NV(n)))'.format(L=L, g=g, t=t)),
                          ('others-kept', 'all({L}.log_t[j]==old({L}.log_t)[j] and {L}.log_v[j]==old({L}.log_v)[j] for j in range(old({L}.log_n)))'.format(L=L))])

    # ---- assignments of every variable, and the sum nodes for those with several
    VEC = TArr(Int)
    MF = dict(vars_assignments=TDict(Int, TList(Int)), vars_assignments_mappings=TDict(Int, TList(MAPS)), vars_mappings=TDict(Int, TTuple(Int, MAPS)), edges_c=TList(TRef('MEdge')),
              node_counter=Int, added=TList(TTuple(Int, Int, ET, MAPS)), touched=TSet(Int))
    reg.refs['MEdge'] = RefClass(dict(mappings=MAPS, e_type=ET), construct=False)
    for k, t in dict(mappings=MAPS, e_type=ET).items():
        reg.fields[('MEdge', k)] = t
    for k, t in MF.items():
        reg.fields[('MGraph', k)] = t
    M = TObj('MGraph', **MF)
    fn('NTGT', Int, Int), fn('TGTI', Int, Int, Int)     # assignments made by equations, as edges
    fn('NMAP', Int, Int), fn('MAPI', Int, Int, Int)     # mappings, as edges
    fn('NVAR', Int), fn('VAR', Int, Int)
    reg.external('MGraph.variables', names=['self'], ret=TList(Int), ensures=[('all-variables', 'len(result)==NVAR() and all(result[q]==VAR(q) for q in range(len(result)))')])
    both = [('target', 'NTGT', 'TGTI', '0'), ('mapping', 'NMAP', 'MAPI', '2')]
    reg.external('MGraph.get_edges_type_for_node_filter', names=['self', 'start_node', 'end_node', 'val'], ret=TTuple(TList(Int), TList(VEC)),
                 requires=[('still-there', 'implies(val==0 or val==2, some(end_node) not in self.touched)')],
                 ensures=[('paired', 'len(result[0])==len(result[1])'), ('indices', 'all(0<=result[0][q] and result[0][q]<len(self.edges_c) for q in range(len(result[0])))')] +
                         [(l + '-edges', 'implies(val==%s, len(result[0])==%s(some(end_node)) and all(result[0][q]==%s(some(end_node),q) and self.edges_c[result[0][q]].e_type==%s and EE(result[0][q])==some(end_node) for q in range(len(result[0]))))' % (e, n, i, e)) for l, n, i, e in both] +
                         [('end-points', 'all(len(result[1][q])==2 and result[1][q][0]==ES(result[0][q]) and result[1][q][1]==EE(result[0][q]) for q in range(len(result[0])))')])
    reg.external('MGraph.remove_edge', names=['self', 'edge_n'], ret=None, modifies=['self.touched'], requires=[('exists', '0<=edge_n and edge_n<len(self.edges_c)')],
                 ensures=[('touched', 'forall(lambda v: (v in self.touched)==(v in old(self.touched) or v==EE(edge_n)), T="Int", pat=v in self.touched)')])
    va, vm = 'self.vars_assignments', 'self.vars_assignments_mappings'
    def entry(v, k):
        return ('({va}[{v}][{k}]==ES(TGTI({v},{k})) and {vm}[{v}][{k}]==self.edges_c[TGTI({v},{k})].mappings if {k}<NTGT({v}) else '
                '{va}[{v}][{k}]==ES(MAPI({v},{k}-NTGT({v}))) and {vm}[{v}][{k}]==self.edges_c[MAPI({v},{k}-NTGT({v}))].mappings)').format(va=va, vm=vm, v=v, k=k)
    def upto(v, n):
        return '({v} in {va})==({n}>0) and ({v} in {vm})==({n}>0) and implies({n}>0, len({va}[{v}])=={n} and len({vm}[{v}])=={n} and all({e} for k in range({n})))'.format(v=v, n=n, va=va, vm=vm, e=entry(v, 'k'))
    TT = '(NTGT({0})+NMAP({0}))'
    def mapped(v, n):
        return '({v} in self.vars_mappings)==({n}>0) and implies({n}>0, self.vars_mappings[{v}][0]==ES(MAPI({v},{n}-1)) and self.vars_mappings[{v}][1]==self.edges_c[MAPI({v},{n}-1)].mappings)'.format(v=v, n=n)
    def done_m(n):
        return 'all(%s for q in range(%s))' % (mapped('VAR(q)', 'NMAP(VAR(q))'), n)
    def done(n):
        return 'all(%s for q in range(%s))' % (upto('VAR(q)', TT.format('VAR(q)')), n)
    rest = 'all(VAR(q) not in {va} and VAR(q) not in {vm} and VAR(q) not in self.touched for q in range({n}, NVAR()))'
    cur = 'VAR(_k)'
    reg.contract(MG + '.remove_chains', params=dict(self=M), modifies=[va, vm, 'self.vars_mappings', 'self.touched'], lexical=True,
                 requires=[('nothing-yet', 'len(%s)==0 and len(%s)==0 and len(self.vars_mappings)==0' % (va, vm)), ('nothing-removed', 'forall(lambda v: v not in self.touched, T="Int")'),
                           ('variables-once', 'NVAR()>=0 and all(implies(a!=c, VAR(a)!=VAR(c)) for a in range(NVAR()) for c in range(NVAR()))'),
                           ('counts', 'forall(lambda v: NTGT(v)>=0 and NMAP(v)>=0, T="Int", pat=NTGT(v))')],
                 loops=[LoopSpec([('done', done('_k')), ('rest', rest.format(va=va, vm=vm, n='_k')), ('mapped', done_m('_k')), ('rest-unmapped', 'all(VAR(q) not in self.vars_mappings for q in range(_k, NVAR()))')], index='_k'),
                        LoopSpec([('done', done('_k')), ('rest', 'all(VAR(q) not in {va} and VAR(q) not in {vm} and VAR(q) not in self.touched for q in range(_k+1, NVAR()))'.format(va=va, vm=vm)), ('this', upto(cur, '_j')), ('mapped', done_m('_k')), ('rest-unmapped', 'all(VAR(q) not in self.vars_mappings for q in range(_k+1, NVAR()))'), ('this-mapped', mapped(cur, '(_j-NTGT(VAR(_k)) if _j>NTGT(VAR(_k)) else 0)'))], index='_j'),
                        LoopSpec([('', 'True')], index='_m'), LoopSpec([('', 'True')], index='_r')],
                 ensures=[('every-assignment-once', done('NVAR()')), ('mapping-of-every-variable', done_m('NVAR()'))])

    reg.external('new_sum', names=[], ret=Str)
    reg.globals[(MG.split(':')[0], 'new_sum')] = ExtObj(reg.externals['new_sum'])
    EDGE = TTuple(Int, Int, ET, MAPS)
    reg.external('Node', names=['key', 'node_type', 'name', 'file', 'label', 'ln', 'ast_type', 'scope_var'], ret=Str, returns='key')
    reg.external('Edge', names=['start', 'end', 'e_type', 'mappings', 'arg_local'], ret=EDGE, effect=lambda v, env: (env['start'], env['end'], env['e_type'], (':' if env['mappings'] is None else env['mappings']) if env['arg_local'] is None else env['arg_local']))
    for k in ('Node', 'Edge'):
        reg.globals[('numerous.engine.model.graph_representation.graph', k)] = ExtObj(reg.externals[k])
    reg.external('MGraph.add_node', names=['self', 'node'], ret=Int, modifies=['self.node_counter'], ensures=[('new', 'result==old(self.node_counter) and self.node_counter==result+1')])
    reg.external('MGraph.add_edge', names=['self', 'edge'], ret=None, modifies=['self.added'], ensures=[('one-more', 'len(self.added)==len(old(self.added))+1 and self.added[len(old(self.added))]==edge'), ('kept', 'all(self.added[q]==old(self.added)[q] for q in range(len(old(self.added))))')])
    fn('POS', Int, Int)                                 # where the edges of the k-th variable start
    K = 'keyat(%s,{k})' % va
    VS = '%s[%s]' % (va, K)
    NB = '(len({vs}) if len({vs})>1 else 1 if {key} in self.vars_mappings else 0)'
    def nb(k):
        return NB.format(vs=VS.format(k=k), key=K.format(k=k))
    def block(k, n):
        return ('implies({nb}>0 and {n}>0, self.added[POS({k})][1]=={key} and self.added[POS({k})][2]==0) and '
                'all(implies(len({vs})>1, self.added[POS({k})+1+j][0]=={vs}[j] and self.added[POS({k})+1+j][1]==self.added[POS({k})][0] and self.added[POS({k})+1+j][2]==6 and self.added[POS({k})+1+j][3]=={vm}[{key}][j]) for j in range({n}-1))'
                ' and implies(len({vs})<=1 and {nb}>0 and {n}>1, self.added[POS({k})+1][0]==self.vars_mappings[{key}][0] and self.added[POS({k})+1][1]==self.added[POS({k})][0] and self.added[POS({k})+1][2]==6 and self.added[POS({k})+1][3]==self.vars_mappings[{key}][1])'
                ).format(vs=VS.format(k=k), key=K.format(k=k), n=n, k=k, vm=vm, nb=nb(k))
    def blocks(n):
        return [('edges-of-every-sum', 'all(%s for q in range(%s))' % (block('q', '(1+%s)' % nb('q')), n)),
                ('nodes-of-their-own', 'all(implies(%s>0, old(self.node_counter)<=self.added[POS(q)][0] and self.added[POS(q)][0]<self.node_counter) for q in range(%s))' % (nb('q'), n))]
    reg.contract(MG + '.add_mappings', params=dict(self=M), modifies=['self.added', 'self.node_counter'], lexical=True,
                 requires=[('nothing-yet', 'len(self.added)==0'), ('same-length', 'all(v in {vm} and len({vm}[v])==len({va}[v]) for v in {va})'.format(va=va, vm=vm)),
                           ('positions', 'POS(0)==0 and all(POS(k+1)==POS(k)+({nb}+1 if {nb}>0 else 0) for k in range(len({va})))'.format(nb=nb('k'), va=va))],
                 loops=[LoopSpec([('length', 'POS(_k)>=0 and len(self.added)==POS(_k)'), ('counter', 'self.node_counter>=old(self.node_counter)'), ('positions', 'all(0<=POS(q) and POS(q+1)<=POS(_k) for q in range(_k))')] + blocks('_k'), index='_k', step='check(len({vm}[a])==len({va}[a]), "same-length"); check(len(vals)==len({va}[a]) and a=={K}, "this-one"); check(POS(_k+1)==POS(_k)+({nb}+1 if {nb}>0 else 0), "next")'.format(va=va, vm=vm, K=K.format(k='_k'), nb=nb('_k'))),
                        LoopSpec([('length', 'POS(_k)>=0 and len(self.added)==POS(_k)+1+_j'), ('positions', 'all(0<=POS(q) and POS(q+1)<=POS(_k) for q in range(_k))'), ('this', block('_k', '(1+_j)')), ('new-node', 'self.added[POS(_k)][0]==nsn and old(self.node_counter)<=nsn and self.node_counter==nsn+1')] + blocks('_k'), index='_j')],
                 ensures=[('length', 'len(self.added)==POS(len(%s))' % va)] + blocks('len(%s)' % va))

    # ---- a temporary for every equation that writes a variable with several assignments
    SVT = TRef('ScopeVar')
    reg.refs['ScopeVar'] = RefClass(dict(tag=Str, place=Int), construct=False)
    reg.refs['ANode'] = RefClass(dict(scope_var=SVT), construct=False)
    reg.refs['AEdge'] = RefClass(dict(arg_local=Str), construct=False)
    reg.fields[('ANode', 'scope_var')], reg.fields[('AEdge', 'arg_local')], reg.fields[('ScopeVar', 'tag')] = SVT, Str, Str
    AM = TObj('MGraphA', vars_assignments=TDict(Int, TList(Int)), vars_assignments_mappings=TDict(Int, TList(MAPS)), edges_c=TList(TRef('AEdge')), nodes=TList(TRef('ANode')), key_map=TList(Str),
              node_counter=Int, src=TArr(Int), arg=TArr(Str), ety=TArr(ET))
    fn('NEQ', Int), fn('EQ', Int, Int), fn('RANK', Int, Int)          # the equations and their numbers
    fn('NOUT', Int, Int), fn('OUTI', Int, Int, Int), fn('OUTV', Int, Int, Int), fn('KOF', Int, Int, Int), fn('WHERE', Int, Int, Int)   # their assignments
    reg.external('MGraphA.get_where_node_attr', names=['self', 'attr', 'val'], ret=TList(Int), ensures=[('all-equations', 'len(result)==NEQ() and all(result[q]==EQ(q) for q in range(len(result)))')])
    reg.external('MGraphA.get_edges_for_node', names=['self', 'start_node'], ret=TList(TTuple(VEC, VEC)),
                 ensures=[('edges-from-it', 'len(result)==NOUT(start_node) and all(len(result[q][0])==1 and len(result[q][1])==2 and result[q][0][0]==OUTI(start_node,q) and result[q][1][0]==start_node and result[q][1][1]==OUTV(start_node,q) for q in range(len(result)))')])
    reg.external('tqdm.tqdm', names=['it', 'desc'], ret=None, effect=lambda v, env: env['it'])
    reg.external('TemporaryVar', names=['id', 'svi', 'tag', 'set_var', 'set_var_ix'], ret=SVT, ensures=['implies(not isnone(set_var_ix), result.place==some(set_var_ix))'])
    reg.globals[(MG.split(':')[0], 'TemporaryVar')] = ExtObj(reg.externals['TemporaryVar'])
    reg.external('ScopeVar.get_path_dot', names=['self'], ret=Str)
    reg.refs['ScopeVar'].consts['get_path_dot'] = ExtObj(reg.externals['ScopeVar.get_path_dot'])
    reg.external('d_u', names=['s'], ret=Str)
    reg.globals[(MG.split(':')[0], 'd_u')] = ExtObj(reg.externals['d_u'])
    reg.external('MGraphA.add_node', names=['self', 'node', 'ignore_existing'], ret=Int, modifies=['self.node_counter'], ensures=[('new', 'result==old(self.node_counter) and self.node_counter==result+1')])
    reg.external('MGraphA.add_edge', names=['self', 'edge'], ret=None, modifies=['self.src', 'self.arg', 'self.ety'],
                 ensures=[('edge', 'forall(lambda j: self.src[j]==(edge[0] if j==edge[1] else old(self.src)[j]) and self.arg[j]==(edge[3] if j==edge[1] else old(self.arg)[j]) and self.ety[j]==(edge[2] if j==edge[1] else old(self.ety)[j]), T="Int", pat=self.src[j])')])
    O = 'old(%s)[{v}][{k}]' % va
    iseq = '(0<=RANK(%s) and RANK(%s)<NEQ() and EQ(RANK(%s))==%s)' % (O, O, O, O)
    def ents(proc):
        e = ('({va}[{v}][{k}]>=old(self.node_counter) and {va}[{v}][{k}]<self.node_counter and self.src[{va}[{v}][{k}]]=={o} and self.arg[{va}[{v}][{k}]]==self.edges_c[OUTI({o},KOF({o},{v}))].arg_local and self.ety[{va}[{v}][{k}]]==0 and {vm}[{v}][{k}]==":" '
             'if len(old({va})[{v}])>1 and {i} and {p} else {va}[{v}][{k}]=={o} and {vm}[{v}][{k}]==old({vm})[{v}][{k}])')
        f = lambda t: t.replace('{v}', 'v').replace('{k}', 'k')
        e = f(e.replace('{o}', O).replace('{i}', iseq).replace('{p}', proc.replace('{o}', O)).replace('{va}', va).replace('{vm}', vm))
        return [('same-variables', 'forall(lambda v: (v in {va})==(v in old({va})) and (v in {vm})==(v in old({vm})), T="Int")'.format(va=va, vm=vm)),
                ('same-number', 'all(len({va}[v])==len(old({va})[v]) and len({vm}[v])==len(old({va})[v]) for v in {va})'.format(va=va, vm=vm)),
                ('entries', 'all(%s for v in %s for k in range(len(%s[v])))' % (e, va, va)), ('counter', 'self.node_counter>=old(self.node_counter)')]
    several = 'va in self.vars_assignments and len(old(self.vars_assignments)[va])>1'
    steps = ('check(RANK(n)==_k and KOF(n,va)==_j and va==OUTV(n,_j) and EQ(_k)==n and 0<=_k and _k<NEQ(), "this-edge"); '
             'check(implies({m}, self.node_counter==c0+1 and self.vars_assignments[va][WHERE(n,va)]==c0 and self.vars_assignments_mappings[va][WHERE(n,va)]==":" and old(self.vars_assignments)[va][WHERE(n,va)]==n), "replaced"); '
             'check(implies({m}, self.src[c0]==n and self.arg[c0]==self.edges_c[OUTI(n,_j)].arg_local and self.ety[c0]==0), "its-edge"); '
             'check(forall(lambda j: implies(j<c0, self.src[j]==s0[j] and self.arg[j]==a0[j] and self.ety[j]==t0[j]), T="Int", pat=self.src[j]), "other-edges"); '
             'check(all(implies(v!=va or k!=WHERE(n,va), self.vars_assignments[v][k]==A0[v][k] and self.vars_assignments_mappings[v][k]==M0[v][k]) for v in self.vars_assignments for k in range(len(self.vars_assignments[v]))), "other-entries")').format(m=several)
    pieces = dict(modifies=[va, vm, 'self.src', 'self.arg', 'self.ety', 'self.node_counter'], lexical=True,
                 requires=[('equations-numbered', 'NEQ()>=0 and all(RANK(EQ(q))==q and EQ(q)<self.node_counter and 0<=EQ(q) and NOUT(EQ(q))>=0 for q in range(NEQ()))'),
                           ('same-length', 'all(v in {vm} and len({vm}[v])==len({va}[v]) and all({va}[v][k]<self.node_counter for k in range(len({va}[v]))) for v in {va})'.format(va=va, vm=vm)),
                           ('assignments-of-equations', 'all(KOF(EQ(q),OUTV(EQ(q),k))==k and 0<=OUTI(EQ(q),k) and OUTI(EQ(q),k)<len(self.edges_c) and 0<=OUTV(EQ(q),k) and OUTV(EQ(q),k)<len(self.nodes) and OUTV(EQ(q),k)<len(self.key_map) for q in range(NEQ()) for k in range(NOUT(EQ(q))))'),
                           ('are-listed', 'all(implies(OUTV(EQ(q),k) in {va}, 0<=WHERE(EQ(q),OUTV(EQ(q),k)) and WHERE(EQ(q),OUTV(EQ(q),k))<len({va}[OUTV(EQ(q),k)]) and {va}[OUTV(EQ(q),k)][WHERE(EQ(q),OUTV(EQ(q),k))]==EQ(q)) for q in range(NEQ()) for k in range(NOUT(EQ(q))))'.format(va=va)),
                           ('once', 'all(implies({r}, k==WHERE({o},v) and 0<=KOF({o},v) and KOF({o},v)<NOUT({o}) and OUTV({o},KOF({o},v))==v) for v in {va} for k in range(len({va}[v])))'.format(va=va, o='%s[v][k]' % va, r=iseq.replace(O, '%s[v][k]' % va)))],
                 loops=[LoopSpec(ents('RANK({o})<_k'), index='_k'), LoopSpec(ents('(RANK({o})<_k or RANK({o})==_k and KOF({o},{v})<_j)'), index='_j', use_start='A0 = self.vars_assignments; M0 = self.vars_assignments_mappings; s0 = self.src; a0 = self.arg; t0 = self.ety; c0 = self.node_counter',
                                                                                     step=steps)],
                 ensures=ents('True'))
    reg.contract(MG + '.create_assignments#scalar', params=dict(self=AM, variables=TAny()), locals=dict(temp_variables=TDict(Str, SVT), fake_sv=TDict(Str, SVT)), **pieces)
    # the same for columns of sets, with a temporary for every element
    reg.refs['SetElem'] = RefClass(dict(tag=Str, set_var=Any, set_var_ix=Int), construct=False)
    reg.refs['SetCol'] = RefClass(dict(tag=Str, id=Str, variables=TDict(Str, TRef('SetElem'))), construct=False)
    reg.classes['SetCol'] = 'numerous.engine.variables:SetOfVariables'
    reg.refs['BNode'] = RefClass(dict(scope_var=TRef('SetCol')), construct=False)
    reg.refs['TmpSet'] = RefClass(dict(id=Str, tmp_vars=TList(SVT)), construct=False)
    reg.external('TemporarySetVar', names=['id', 'set_var'], ret=TRef('TmpSet'), ensures=['len(result.tmp_vars)==0 and result.id==id'])
    reg.globals[(MG.split(':')[0], 'TemporarySetVar')] = ExtObj(reg.externals['TemporarySetVar'])
    BM = TObj('MGraphA', **dict(AM.fields, nodes=TList(TRef('BNode'))))
    pieces['loops'] = pieces['loops'] + [LoopSpec([('one-for-each', 'len(tsv.tmp_vars)==_m'), ('places', 'all(tsv.tmp_vars[q].place==sv.variables[keyat(sv.variables,q)].set_var_ix for q in range(_m))')], index='_m')]
    pieces['modifies'] = pieces['modifies'] + ['TmpSet.tmp_vars']
    reg.contract(MG + '.create_assignments#sets', params=dict(self=BM, variables=TAny()), locals=dict(temp_variables=TDict(Str, TRef('TmpSet')), fake_sv=TDict(Str, TRef('TmpSet'))), **pieces)

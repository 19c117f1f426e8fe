"""Event i: its own condition, direction and action."""
from .compiled import *
from . import nodes
from pyvc.vals import *

EXPLAIN = 'generate_event_condition_ast, generate_event_action_ast, add_closure_variables, ClosureVariablesRenamer.visit_Name against contracts on the meaning of the generated ' \
          'trees and of the namespace they run in, for any number and order of events.'
ASSUME = ['Python and numba execute definitions, calls and if statements of the generated function as Python means them',
          'ast.NodeTransformer applies visit_Name to every name of the tree and leaves the rest; copy.deepcopy copies the whole tree']
EV = 'numerous.engine.model.events:'


def build(reg):
    nodes.install(reg)
    reg.node_attrs['name'] = Str
    V = TRef('Val')
    reg.refs['Val'] = RefClass(dict(none_=Int), construct=False)
    FN, E = TRef('Fun'), TRef('Event')
    D = TDict(Str, V)
    reg.refs['Fun'] = RefClass(dict(ast_func=NodeT, closure_variables=TOpt(D)), construct=False)
    reg.refs['Event'] = RefClass(dict(condition=FN, action=FN, direction=Int, is_external=Bool, compiled_functions=TOpt(D)), construct=False)
    for f in ('ORIG',):
        reg.fn(f, [('n', None)], None, lambda v, n, f=f: SV(NodeT, nodes.F(f, nodes.N, nodes.N)(v.scalar(n, NodeT))))
    reg.fn('FRESH', [('n', None)], None, lambda v, n: SV(Bool, nodes.F('FRESH', nodes.N, z3.BoolSort())(v.scalar(n, NodeT))))
    from pyvc.types import StrSort
    # the name a name of the original has in the tree
    reg.fn('NOW', [('n', None), ('k', None)], None, lambda v, n, k: SV(Str, nodes.F('NOW', nodes.N, StrSort, StrSort)(v.scalar(n, NodeT), v.scalar(k, Str))))
    reg.external('copy.deepcopy', names=['x'], ret=NodeT, ensures=['FRESH(result) and ORIG(result)==x and FNAME(result)==FNAME(x)', 'all(NOW(result, k)==k for k in strs())'])
    RN = TObj('ClosureVariablesRenamer', names=TDict(Str, Str))
    reg.classes['ClosureVariablesRenamer'] = EV + 'ClosureVariablesRenamer'
    reg.external('ClosureVariablesRenamer.visit', names=['self', 'node'], ret=NodeT, requires=[('not-the-original', 'FRESH(node)')],
                 ensures=['ORIG(result)==ORIG(node) and FNAME(result)==FNAME(node)',
                          'all(NOW(result, k)==(self.names[NOW(node, k)] if NOW(node, k) in self.names else NOW(node, k)) for k in strs())'])
    NN = TObj('NameNode', id=Str)
    reg.contract(EV + 'ClosureVariablesRenamer.visit_Name', params=dict(self=RN, node=NN), modifies=['node.id'],
                 ensures=[('new-name', 'node.id==(self.names[old(node.id)] if old(node.id) in self.names else old(node.id)) and result is node')])
    kept = 'all(implies(k in old(namespace), k in namespace and refid(namespace[k])==refid(old(namespace)[k])) for k in strs())'
    bound = 'all(implies(k in variables, NOW(result, k) in namespace and refid(namespace[NOW(result, k)])==refid(variables[k])) for k in strs())'
    reg.contract(EV + 'add_closure_variables', params=dict(function=NodeT, variables=D, namespace=D), modifies=['namespace'], ret=NodeT,
                 ensures=[('the-function', 'ORIG(result)==function and FNAME(result)==FNAME(function)'), ('own-values', bound), ('other-names-stay', 'all(implies(k not in variables, NOW(result, k)==k) for k in strs())'),
                          ('earlier-entries-stay', kept)],
                 loops=[LoopSpec([kept, 'all(implies(k in variables and posof(variables, k)<_k, k in names and names[k] in namespace and refid(namespace[names[k]])==refid(variables[k])) for k in strs())',
                                  'all(implies(k in names, k in variables and posof(variables, k)<_k) for k in strs())']),
                        LoopSpec(['True'])])
    # the generated functions: the tree and the namespace it is compiled in
    reg.external('njit_and_compile_function', names=['func', 'from_imports', 'compiled_functions', 'closurevariables'], returns='(func, compiled_functions)')
    reg.globals[('numerous.engine.model.events', 'njit_and_compile_function')] = ExtObj(reg.externals['njit_and_compile_function'])

    def own(kind, q, b, ns):
        """node b is the function `kind` of event q, and the names it closes over mean its own values in ns"""
        f = 'event_functions[%s].%s' % (q, kind)
        c, g = f + '.closure_variables', 'event_functions[%s].compiled_functions' % q
        inc, ing = '(not isnone({0}) and k in some({0}))'.format(c), '(not isnone({0}) and k in some({0}))'.format(g)
        is_ = '(NOW({b}, k) in {n} and refid({n}[NOW({b}, k)])==refid(some({d})[k]))'
        return ['ORIG({b})=={f}.ast_func and FNAME({b})==FNAME({f}.ast_func)'.format(b=b, f=f),
                'all(implies(%s, %s) for k in strs())' % (inc, is_.format(b=b, n=ns, d=c)),
                'all(implies(%s and not %s, %s) for k in strs())' % (ing, inc, is_.format(b=b, n=ns, d=g)),
                'all(implies(not %s and not %s, NOW(%s, k)==k) for k in strs())' % (ing, inc, b)]
    EVS = TList(E)
    N = 'len(event_functions)'

    def called(c, b):
        return 'isCall({c}) and FUN({c})==FNAME({b}) and NARG({c})==2 and NAMED(ARG({c}, 0))=="t" and NAMED(ARG({c}, 1))=="states"'.format(c=c, b=b)

    def conditions(at, n, ns, dirs):
        b, s = at('1+2*q'), at('2+2*q')
        call = 'VALUE(%s)' % s
        out = [('entry-%d' % i, 'all(%s for q in range(%s))' % (x, n)) for i, x in enumerate(own('condition', 'q', b, ns))]
        out[0] = ('its-own-condition', out[0][1]); out[1] = ('its-own-values', out[1][1]); out[2] = ('its-own-functions', out[2][1]); out[3] = ('other-names', out[3][1])
        return out + [('appended-in-order', 'all(isExpr({s}) and isCall({c}) and ATTR(CALLEE({c}))=="append" and NAMED(VALUE(CALLEE({c})))=="result" and NARG({c})==1 and {r} for q in range({n}))'.format(
            s=s, c=call, r=called('ARG(%s, 0)' % call, b), n=n)),
            ('its-own-direction', 'all({d}[q]==event_functions[q].direction for q in range({n}))'.format(d=dirs, n=n))]
    start = 'isAssign({x}) and TGTN({x})==1 and NAMED(TGT({x}, 0))=="result" and isList(RHS({x})) and NEL(RHS({x}))==0'
    FN_, NS = 'result[0][0]', 'result[0][1]'
    B = lambda i: 'BODY(%s, %s)' % (FN_, i)
    last = B('BODYN(%s)-1' % FN_)
    reg.contract(EV + 'generate_event_condition_ast', params=dict(event_functions=EVS, from_imports=TAny()), locals=dict(directions_array=TList(Int), namespace=D, body=TList(NodeT)),
                 ensures=[('takes-time-and-variables', 'isFunctionDef({0}) and NPAR({0})==2 and NAMED(PAR({0}, 0))=="t" and NAMED(PAR({0}, 1))=="states"'.format(FN_)),
                          ('one-entry-per-event', 'BODYN(%s)==2*%s+2 and len(result[1])==%s' % (FN_, N, N)), ('starts-empty', start.format(x=B(0)))]
                 + conditions(B, N, NS, 'result[1]')
                 + [('returns-the-entries', 'isReturn({0}) and isCall(VALUE({0})) and ATTR(CALLEE(VALUE({0})))=="array" and NAMED(ARG(VALUE({0}), 0))=="result"'.format(last))],
                 loops=[LoopSpec(['len(body)==1+2*_k and len(directions_array)==_k', start.format(x='body[0]')] + [x for a, x in conditions(lambda i: 'body[%s]' % i, '_k', 'namespace', 'directions_array')])])
    # actions: two statements for each internal event, in order; CNT counts the internal events among the first n
    reg.fn('CNT', [('x', EVS), ('n', Int)], Int, '0 if n<=0 else CNT(x, n-1)+(0 if x[n-1].is_external else 1)', rec=True)

    def actions(at, n, ns, count):
        b, s = at('2*CNT(event_functions, q)'), at('2*CNT(event_functions, q)+1')
        c, t = 'VALUE(BODY(%s, 0))' % s, 'TEST(%s)' % s
        names = ['its-own-action', 'its-own-values', 'its-own-functions', 'other-names']
        return [(a, 'all(implies(not event_functions[q].is_external, %s) for q in range(%s))' % (x, n)) for a, x in
                [('in-its-place', '0<=CNT(event_functions, q) and 2*CNT(event_functions, q)+1<%s' % count)] + list(zip(names, own('action', 'q', b, ns)))
                + [('run-when-its-number-is-given', 'isIf({s}) and isCompare({t}) and EQ({t}) and NAMED(LEFT({t}))=="a_idx" and isConstant(RIGHT({t})) and IDX(RIGHT({t}))==q and BODYN({s})==1 '
                    'and isExpr(BODY({s}, 0)) and {c}'.format(s=s, t=t, c=called(c, b)))]]
    FN_, NS = 'result[0]', 'result[1]'
    B2 = lambda i: 'BODY(%s, %s)' % (FN_, i)
    last = B2('BODYN(%s)-1' % FN_)
    reg.contract(EV + 'generate_event_action_ast', params=dict(event_functions=EVS, from_imports=TAny()), locals=dict(namespace=D, body=TList(NodeT)),
                 hints={'body_r': '\n'.join('check(%s, "%s")' % (x, a) for a, x in actions(lambda i: 'body[%s]' % i, N, 'namespace', 'len(body)-1'))},
                 ensures=[('takes-time-variables-and-number', 'isFunctionDef({0}) and NPAR({0})==3 and NAMED(PAR({0}, 0))=="t" and NAMED(PAR({0}, 1))=="states" and NAMED(PAR({0}, 2))=="a_idx"'.format(FN_)),
                          ('nothing-else', 'BODYN(%s)==2*CNT(event_functions, %s)+1' % (FN_, N))] + actions(B2, N, NS, 'BODYN(%s)' % FN_)
                 + [('returns-the-variables', 'isReturn({0}) and NAMED(VALUE({0}))=="states"'.format(last))],
                 loops=[LoopSpec(['len(body)==2*CNT(event_functions, _k) and 0<=CNT(event_functions, _k)'] + [x for a, x in actions(lambda i: 'body[%s]' % i, '_k', 'namespace', 'len(body)')])])
    # evaluation of the i-th condition
    from .c12 import evaluation
    evaluation(reg)
    # names of variables in event functions
    Var = TRef('Var')
    reg.refs['Var'] = RefClass(dict(llvm_idx=Int), construct=False)
    MV = TObj('MV', path_to_variable=TDict(Str, Var))
    reg.external('MV._get_var_idx', names=['self', 'var', 'idx_type'], ret=TList(Int), ensures=['len(result)==1 and result[0]==var.llvm_idx'])
    reg.fn('isstr', [('x', None)], None, lambda v, x: mk(Bool, AnySort.is_AStr(v.unopt(x).z)))
    VV = TObj('VariablesVisitor', path_to_root_str=Str, model=MV, idx_type=Str, closurevariables=TDict(Str, TAny()), assigned_variables=TDict(Str, TAny()), variables_name=TOpt(Str))
    reg.classes['VariablesVisitor'] = EV + 'VariablesVisitor'
    reg.external('ast.NodeVisitor.generic_visit', names=['self', 'node'])
    NAME = TObj('ast.Name', id=Str)
    T, P = 'self.model.path_to_variable', 'self.path_to_root_str'
    LOC = lambda a: '(%s[len(%s):] if %s.startswith(%s) else %s)' % (a, P, a, P, a)
    one = ('names-mean-one-variable', 'all(implies(a in {t} and b in {t} and {x}=={y}, refid({t}[a])==refid({t}[b])) for a in strs() for b in strs())'.format(t=T, x=LOC('a'), y=LOC('b')))
    # the key is a constant
    SUB = TObj('ast.Subscript', value=NAME, slice=TObj('ast.Constant', value=TAny()))
    reg.contract(EV + 'VariablesVisitor.generic_visit#constant', params=dict(self=VV, node=SUB), modifies=['node.slice.value'],
                 requires=[('variables-named', 'not isnone(self.variables_name)'), ('a-name', 'isstr(node.slice.value)'), one],
                 raises=[('KeyError', 'node.value.id==some(self.variables_name) and not any(a in {t} and same({x}, node.slice.value) for a in strs())'.format(t=T, x=LOC('a')), 'iff')],
                 ensures=[('its-own-slot', 'all(implies(node.value.id==some(self.variables_name) and a in {t} and same({x}, old(node.slice.value)), same(node.slice.value, {t}[a].llvm_idx)) for a in strs())'.format(t=T, x=LOC('a'))),
                          ('others-untouched', 'implies(node.value.id!=some(self.variables_name), same(node.slice.value, old(node.slice.value)))')],
                 loops=[LoopSpec(['all(implies(a in {t} and posof({t}, a)<_k, not same({x}, node.slice.value)) for a in strs())'.format(t=T, x=LOC('a')), 'same(node.slice.value, old(node.slice.value))'])])
    # the solver's events carry the number of the event in its own list
    SE = TRef('SolverEvent')
    reg.refs['SolverEvent'] = RefClass(dict(of=E, number=Int), construct=False)
    F = SI + 'EventFactory'
    reg.refs['Funs'] = RefClass(dict(none_=Int), construct=False)
    FU = TRef('Funs')
    MO = TObj('ModelOfEvents', events=TList(E), timestamp_events=TList(E), numba_model=TRef('Funs'), conditions=FU, state_actions=FU, time_actions=FU, directions=TArr(Int))
    reg.external('ModelOfEvents.generate_event_condition_ast', names=['self'], modifies=['self.events'], returns='(self.conditions, self.directions)', ensures=['len(self.events)>=len(old(self.events))'])
    reg.external('ModelOfEvents.generate_event_action_ast', names=['self', 'events'], ret=FU,
                 ensures=['implies(same(events, self.events), refid(result)==refid(self.state_actions))', 'implies(same(events, self.timestamp_events), refid(result)==refid(self.time_actions))'])
    reg.contract(F + '.create_numerous_solver_event', params=dict(self=TAny(), event_=E, ix=Int, model=TAny()), trusted='creates a class for the event (run bounded)', ret=SE,
                 ensures=[('of-that-event', 'refid(result.of)==refid(event_) and result.number==ix')])
    EM = TObj('EngineModel', numba_model=FU, state_event_functions=FU, state_event_directions=TArr(Int), state_event_actions=FU, time_event_actions=FU, time=TList(SE), state=TList(SE))
    reg.external('EngineModel.add_time_events', names=['self', 'events'], modifies=['self.time'], ensures=['same(self.time, events)'])
    reg.external('EngineModel.add_state_events', names=['self', 'events'], modifies=['self.state'], ensures=['same(self.state, events)'])
    reg.external('new_engine_model', names=['numba_model', 'state_event_functions', 'state_event_directions', 'state_event_actions', 'time_event_actions'], ret=EM,
                 ensures=['refid(result.state_event_functions)==refid(state_event_functions) and refid(result.state_event_actions)==refid(state_event_actions) and refid(result.time_event_actions)==refid(time_event_actions) and '
                          'same(result.state_event_directions, state_event_directions)'])
    reg.external('new_handler', names=['model', 'numba_model'], ret=FU)
    mod = SI.rstrip(':')
    reg.globals[(mod, 'NumerousEngineModel')] = ExtObj(reg.externals['new_engine_model'])
    reg.globals[(mod, 'NumerousEngineEventHandler')] = ExtObj(reg.externals['new_handler'])
    num = lambda l, ev, n: 'all(refid({l}[q].of)==refid({e}[q]) and {l}[q].number==q for q in range({n}))'.format(l=l, e=ev, n=n)
    reg.contract(SI + 'generate_numerous_engine_solver_model', params=dict(model=MO), modifies=['model.events'], locals=dict(state_events=TList(SE), time_events=TList(SE)),
                 ensures=[('state-events-numbered', 'len(result[0].state)==len(model.events) and ' + num('result[0].state', 'model.events', 'len(model.events)')),
                          ('time-events-numbered', 'len(result[0].time)==len(model.timestamp_events) and ' + num('result[0].time', 'model.timestamp_events', 'len(model.timestamp_events)')),
                          ('functions-in-their-places', 'refid(result[0].state_event_functions)==refid(model.conditions) and refid(result[0].state_event_actions)==refid(model.state_actions) and '
                           'refid(result[0].time_event_actions)==refid(model.time_actions) and same(result[0].state_event_directions, model.directions)')],
                 loops=[LoopSpec(['len(state_events)==_k', num('state_events', 'model.events', '_k')]), LoopSpec(['len(time_events)==_k', num('time_events', 'model.timestamp_events', '_k')])])

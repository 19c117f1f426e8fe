"""What fired events change."""
from .compiled import *
from pyvc.vals import *

EXPLAIN = 'The actions of internal events (EventFactory._wrap_internal_event), the evaluation of conditions (_wrap_state_event, and the interface methods they use) ' \
          'against contracts over any action (its outcome is an arbitrary array), any variables and any position of the states; the variables handed out as a copy or by reference.'
EF = SI + 'EventFactory.'


def evaluation(reg):
    """conditions are evaluated on a copy with the solver's states (also part of C11)"""
    setup(reg)
    reg.classes['CompiledModelR'] = CM
    reg.classes['InterfaceR'] = SI + 'NumerousEngineModelInterface'
    reg.external('CompiledModelR.read_variables', names=['self'], returns='self.vals')
    e = reg.externals['CompiledModel.write_variables']
    reg.external('CompiledModelR.write_variables', names=['self', 'value', 'idx'],
                 requires=[('slot-in-range', '0<=idx and idx<len(self.vals)')], modifies=['self.vals'],
                 ensures=['len(self.vals)==len(old(self.vals)) and self.vals[idx]==value and '
                          'all(self.vals[s_]==old(self.vals)[s_] for s_ in range(len(self.vals)) if s_!=idx)'])
    p, q = 'interface.model.numba_model.', 'interface.model.'
    S = cm_type()
    more = dict(state_event_directions=TArr(Int), when=Real, seen=TArr(Real), conds=TArr(Real))
    I = interface_states(reg, S, **more)
    kernel_states(reg, S)
    WI = [(a, x.replace('self.', p)) for a, x in WF]
    BE = TObj('BaseStateEvent')
    reg.classes['BaseStateEvent'] = EF + '_wrap_state_event.<locals>.BaseStateEvent'
    reg.external('NumerousEngineModel.state_event_functions', names=['self', 't', 'variables'], ret=TArr(Real), returns='self.conds',
                 requires=[('at-the-given-time', 't==self.when'), ('on-the-variables-with-the-given-states', 'len(variables)==len(self.seen) and all(variables[s_]==self.seen[s_] for s_ in range(len(self.seen)))')])
    kept = ('no-variable-changes', 'len({0}vals)==len(old({0}vals)) and all({0}vals[s]==old({0}vals)[s] for s in range(len({0}vals)))'.format(p))
    VW = '(len({v})==len({0}vals) and all({v}[{0}state_idx[i]]=={y}[i] for i in range(len({y}))) and all({v}[s]==old({0}vals)[s] for s in range(len({0}vals)) if not any({0}state_idx[i]==s for i in range(len({y})))))'
    N = EF + '_wrap_state_event.<locals>.BaseStateEvent.'
    as_many = ('as-many-as-states', 'len(%s)==len(' + p + 'state_idx)')
    reg.contract(N + '_get_variables_modified', params=dict(self=BE, interface=I, t=Real, y_=TArr(Real)), requires=WI + [(as_many[0], as_many[1] % 'y_')],
                 modifies=[p + 'vals'], ret=TArr(Real), ensures=[kept, ('variables-with-the-given-states', VW.format(p, v='result', y='y_'))])
    reg.contract(N + 'get_event_results', params=dict(self=BE, interface=I, t=Real, y=TArr(Real), ix=Int),
                 requires=WI + [(as_many[0], as_many[1] % 'y'), ('one-condition-per-event', '0<=ix and ix<len(%sconds)' % q),
                                ('expected-values', '%swhen==t and ' % q + VW.format(p, v=q + 'seen', y='y').replace('old(%svals)' % p, p + 'vals'))],
                 modifies=[p + 'vals'], ret=Real, ensures=[kept, ('its-own-condition', 'result==%sconds[ix]' % q)])
    reg.contract(N + 'get_event_directions', params=dict(self=BE, interface=I, t=Real, y=TArr(Real), ix=Int), requires=[('one-direction-per-event', '0<=ix and ix<len(%sstate_event_directions)' % q)],
                 ret=Int, ensures=[('its-own-direction', 'result==%sstate_event_directions[ix]' % q)])
    # the same with the variables handed out by reference
    SR = TObj('CompiledModelR', **{f: t for f, t in S.fields.items()}) if hasattr(S, 'fields') else None
    NMR = TObj('NumerousEngineModelR', numba_model=TObj('CompiledModelR', vals=TArr(Real), state_idx=TArr(Int), deriv_idx=TArr(Int), global_vars=TArr(Real)), **more)
    reg.contract(N + '_get_variables_modified#variables-by-reference', params=dict(self=BE, interface=TObj('InterfaceR', model=NMR), t=Real, y_=TArr(Real)),
                 requires=WI + [(as_many[0], as_many[1] % 'y_')], modifies=[p + 'vals'], ret=TArr(Real), ensures=[kept, ('variables-with-the-given-states', VW.format(p, v='result', y='y_'))])
    return I, WI, p, q


def place(v, x):
    """the variable an element of the iteration is about: the first entry of a row or pair, or the element itself"""
    x = v.settle(x)
    return x[0] if isinstance(x, tuple) else x if isinstance(x, int) or isinstance(x, SV) else v.getitem(x, 0)


def build(reg):
    reg.fn('PLACE', [('x', None)], None, place)
    IS, WI, p, q = evaluation(reg)
    p = 'interface.model.numba_model.'
    q = 'interface.model.'
    for R in ('', 'R'):
        S = TObj('CompiledModel' + R, vals=TArr(Real), state_idx=TArr(Int))
        NM = TObj('NumerousEngineModel' + R, numba_model=S, state_event_directions=TArr(Int), kind=Str, number=Int, when=Real, want=TArr(Real), before=TArr(Real))
        I = TObj('Interface' + R, model=NM)
        reg.classes['Interface' + R] = SI + 'NumerousEngineModelInterface'
        W = WF[0][1].replace('self.', p)
        for k in ('state', 'time'):
            reg.external('NumerousEngineModel%s.%s_event_actions' % (R, k), names=['self', 't', 'variables', 'a_idx'], modifies=['variables'],
                         requires=[('the-right-kind', 'self.kind==%r' % k), ('its-own-number', 'a_idx==self.number'), ('at-the-time-of-the-event', 't==self.when'),
                                   ('on-the-current-variables', 'len(variables)==len(self.before) and all(variables[s_]==self.before[s_] for s_ in range(len(self.before)))')],
                         ensures=['len(variables)==len(self.want) and all(variables[s_]==self.want[s_] for s_ in range(len(self.want)))'], returns='variables')
        reg.contract(EF + '_wrap_internal_event.<locals>.BaseInternalEvent.run_event_action' + ('#variables-by-reference' if R else ''),
                     params=dict(self=TObj('BaseInternalEvent'), interface=I, t=Real, y=TArr(Real), event_type=Str, ix=Int),
                     requires=[('states-have-slots', W), ('kind-known', "event_type=='state' or event_type=='time'"), ('the-event', 'event_type==%skind and ix==%snumber and t==%swhen' % (q, q, q)),
                               ('an-outcome-of-the-action', 'len({q}want)==len({q}numba_model.vals)'.format(q=q)), ('values-before', 'len({q}before)==len({p}vals) and all({q}before[s]=={p}vals[s] for s in range(len({q}before)))'.format(p=p, q=q))],
                     modifies=[p + 'vals'],
                     ensures=[('continues-from-the-new-states', 'len(result)==len({0}state_idx) and all(result[j]=={q}want[{0}state_idx[j]] for j in range(len({0}state_idx)))'.format(p, q=q)),
                              ('every-other-variable-takes-its-value', 'len({0}vals)==len({q}want) and all(implies(all({0}state_idx[j]!=s for j in range(len({0}state_idx))), {0}vals[s]=={q}want[s]) for s in range(len({q}want)))'.format(p, q=q))],
                     loops=[LoopSpec(['len({0}vals)==len({q}want) and len(v0)==len({q}want)'.format(p, q=q),
                                      'all(implies(all({0}state_idx[j]!=s for j in range(len({0}state_idx))), {0}vals[s]=={q}want[s] or {0}vals[s]==v0[s]) for s in range(len({q}want)))'.format(p, q=q),
                                      'all(implies(all({0}state_idx[i]!=PLACE(_it[j]) for i in range(len({0}state_idx))), {0}vals[PLACE(_it[j])]=={q}want[PLACE(_it[j])]) for j in range(_k))'.format(p, q=q)], init='v0 = %svals' % p)])
    # external actions: a dictionary with an entry for every name, local names for the variables of the owner
    V = TRef('Var')
    reg.refs['Var'] = RefClass(dict(_value=Real, llvm_idx=TOpt(Int)), construct=False, qual='numerous.engine.variables:Variable')
    reg.classes['Var'] = 'numerous.engine.variables:Variable'
    def model(v, env):
        m = v.symbolic(TObj('Model', path_to_variable=TDict(Str, V), outcome=TDict(Str, Real), when=Real), 'model')
        cm = v.st.objs[m.addr][1]['numba_model'] = v.getattr(v.getattr(env['interface'], 'model'), 'numba_model')
        reg.refs['Var'].consts['write_variable'] = v.getattr(cm, 'write_variables')
        return m
    def action(v, env):
        return ExtObj(reg.externals['user_action'])
    reg.external('Model.update_local_variables', names=['self'], modifies=['Var._value'],
                 ensures=["forall(lambda x: x._value==(self.numba_model.vals[x.llvm_idx] if x.llvm_idx is not None else old(x._value)), T='Var')"])
    reg.external('Model.update_all_variables', names=['self'], modifies=['self.numba_model.vals'],
                 ensures=['len(self.numba_model.vals)==len(old(self.numba_model.vals))',
                          'all(implies(self.path_to_variable[a].llvm_idx is not None, self.numba_model.vals[self.path_to_variable[a].llvm_idx]==self.path_to_variable[a]._value) for a in self.path_to_variable)',
                          'all(implies(all(implies(a in self.path_to_variable and self.path_to_variable[a].llvm_idx is not None and self.path_to_variable[a].llvm_idx==s_, self.path_to_variable[a]._value==old(self.numba_model.vals)[s_]) for a in strs()), '
                          'self.numba_model.vals[s_]==old(self.numba_model.vals)[s_]) for s_ in range(len(self.numba_model.vals)))'])
    for f, t, tn in (('INDOM', Bool, 'Bool'), ('SEEN', Real, 'Real'), ('OUT', Real, 'Real')):
        reg.fn(f, [('s', Str)], t, "app(%r, %s, s)" % (f, tn))
    reg.fn('TAG', [('s', Str)], Str, "app('TAG', Str, s)")
    reg.fn('WHEN', [], Real, "app('WHEN', Real)")
    reg.external('user_action', names=['t', 'variables'], modifies=['variables'],
                 requires=[('at-the-time-of-the-event', 't==WHEN()'), ('only-names-of-the-owner', 'all(INDOM(k) for k in variables)'), ('every-name-of-the-owner', 'all(implies(INDOM(k), k in variables) for k in strs())'),
                           ('current-values', 'all(variables[k]==SEEN(k) for k in variables)')],
                 ensures=['len(variables)==len(old(variables)) and all(iff(k in variables, k in old(variables)) for k in strs()) and all(variables[k]==OUT(k) for k in variables)'])
    for pp, ppt, P, req in (('#model', None, '""', []), ('#item', TList(Str), '(".".join(parent_path)+".")', [('item', 'len(parent_path)>0')])):
        T = 'model.path_to_variable'
        LOC = lambda a: '(%s[len(%s):] if %s.startswith(%s) else %s)' % (a, P, a, P, a)
        cur = '({p}vals[{t}[a].llvm_idx] if {t}[a].llvm_idx is not None else {t}[a]._value)'.format(p=p, t=T)
        changed = lambda a, k='True': '(%s and OUT(%s)!=SEEN(%s))' % (k, LOC(a), LOC(a))
        at = lambda a: 'posof(variables, %s)<_k' % LOC(a)
        post = lambda k: [('changed-variables-take-their-value', 'all(implies(a in {t} and {c}, {t}[a]._value==OUT({l})) for a in strs())'.format(t=T, c=changed('a', k('a')), l=LOC('a'))),
                          ('others-keep-theirs', 'all(implies(a in {t} and not any(b in {t} and refid({t}[b])==refid({t}[a]) and {c} for b in strs()), {t}[a]._value==SEEN({l})) for a in strs())'.format(t=T, c=changed('b', k('b')), l=LOC('a')))]
        one = lambda a: 'True'
        reg.contract(EF + '_wrap_external_event.<locals>.BaseExternalEvent.run_event_action' + pp,
                     params=dict(self=TObj('BaseExternalEvent'), interface=IS, t=Real, y=TArr(Real), model=model, external_action_function=action, parent_path=ppt or (lambda v, env: None)),
                     requires=WI + req + [('the-event', 't==WHEN()'),
                                          ('local-names-distinct', 'all(implies(a in {t} and b in {t} and a!=b, {x}!={y}) for a in strs() for b in strs())'.format(t=T, x=LOC('a'), y=LOC('b'))),
                                          ('names-of-the-owner', 'all(implies(a in {t}, INDOM({x})) for a in strs()) and all(implies(INDOM(k), TAG(k) in {t} and {y}==k) for k in strs())'.format(t=T, x=LOC('a'), y=LOC('TAG(k)'))),
                                          ('own-slots', 'all(implies(a in {t} and {t}[a].llvm_idx is not None, 0<={t}[a].llvm_idx and {t}[a].llvm_idx<len({p}vals)) for a in strs()) and '
                                           'all(implies(a in {t} and b in {t} and {t}[a].llvm_idx is not None and {t}[b].llvm_idx is not None and {t}[a].llvm_idx=={t}[b].llvm_idx, refid({t}[a])==refid({t}[b])) for a in strs() for b in strs())'.format(t=T, p=p)),
                                          ('values-before', 'all(implies(a in {t}, SEEN({x})=={c}) for a in strs())'.format(t=T, x=LOC('a'), c=cur)),
                                          ('one-outcome-per-variable', 'all(implies(a in {t} and b in {t} and refid({t}[a])==refid({t}[b]) and {ca} and {cb}, OUT({x})==OUT({y})) for a in strs() for b in strs())'.format(
                                              t=T, ca=changed('a'), cb=changed('b'), x=LOC('a'), y=LOC('b')))],
                     modifies=[p + 'vals', 'Var._value'],
                     ensures=post(one) + [('written-to-the-slots', 'all(implies(a in {t} and {t}[a].llvm_idx is not None, {p}vals[{t}[a].llvm_idx]=={t}[a]._value) for a in strs())'.format(t=T, p=p)),
                                          ('continues-from-the-new-states', 'len(result)==len({p}state_idx) and all(result[j]=={p}vals[{p}state_idx[j]] for j in range(len(result)))'.format(p=p))],
                     hints={'variables': 'check(all(implies(a in {t}, {x} in tagged) for a in strs()), "every tag has its local name")\n'
                                         'check(all(implies(a in {t}, {x} in variables) for a in strs()), "every local name is handed out")'.format(t=T, x=LOC('a'))},
                     loops=[LoopSpec(post(at) + ['len({p}vals)==len(old({p}vals))'.format(p=p),
                                                 'all(implies(a in {t} and {t}[a].llvm_idx is not None, {p}vals[{t}[a].llvm_idx]=={t}[a]._value) for a in strs())'.format(t=T, p=p)])])

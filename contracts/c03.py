"""Slots of variables, state and derivative order, values moved by name."""
from pyvc.spec import *

EXPLAIN = 'EquationGenerator._parse_variables (slots) and generate_equations (state and derivative order), Model._reset, set_variables, update_all_variables, ' \
          'update_local_variables, states_as_vector and get_variables_initial_values against contracts over any variables, with the kernel\'s values as ghost array.'
ASSUME = ['the kernel\'s write function changes the addressed slot only and its read function returns the current values (C04, C05)',
          'assigning a value to a variable of a built model also writes the variable\'s own slot (its setter is under C13)',
          'ids of variables stay distinct when dots and dashes are replaced (uuid)', 'floating-point values treated as reals']
EG = 'numerous.engine.model.lowering.equations_generator:EquationGenerator'
MD = 'numerous.engine.model.model:Model'


def build(reg):
    reg.enums_used = True
    SV_ = TRef('SetV')
    V = TRef('Var')
    reg.refs['SetV'] = RefClass(dict(id=Str), construct=False)
    reg.refs['Var'] = RefClass(dict(id=Str, global_var=Bool, global_var_idx=Int, set_var=TOpt(SV_), value=Real, llvm_idx=Int), construct=False)
    reg.contract('numerous.utils.string_utils:d_u', params=dict(str_=Str), ret=Str, returns="app('DU', Str, str_)", trusted='replaces dots and dashes')
    reg.fn('DU', [('s', Str)], Str, "app('DU', Str, s)")
    G = TObj('EquationGenerator', scope_variables=TDict(Str, V), temporary_variables=TDict(Str, V), values_order=TDict(Str, Int), global_variables=TDict(Str, Int),
             set_variables=TDict(Str, SV_), scalar_variables=TDict(Str, V))
    reg.classes['EquationGenerator'] = EG
    reg.contract(EG + '._parse_variable', params=dict(self=G, full_tag=Str, sv=V), modifies=['self.set_variables', 'self.scalar_variables'],
                 ensures=[('scalar-by-name', 'implies(isnone(sv.set_var), full_tag in self.scalar_variables and refid(self.scalar_variables[full_tag])==refid(sv))')])
    at = 'self.scope_variables[keyat(self.scope_variables, {0})]'
    ka = 'DU(%s.id)' % at
    K = [('slots-are-positions', 'all(self.values_order[keyat(self.values_order, p)]==p for p in range(len(self.values_order)))'),
         ('one-slot-each', 'all(implies(not %s.global_var, %s in self.values_order) for j in range({n}))' % (at.format('j'), ka.format('j'))),
         ('globals-have-none', 'all(any(k==%s and not %s.global_var for j in range({n})) for k in self.values_order)' % (ka.format('j'), at.format('j'))),
         ('in-variable-order', 'all(implies(j<l and not %s.global_var and not %s.global_var, self.values_order[%s]<self.values_order[%s]) for j in range({n}) for l in range({n}))'
          % (at.format('j'), at.format('l'), ka.format('j'), ka.format('l'))),
         ('global-positions', 'all(implies(%s.global_var, %s in self.global_variables and self.global_variables[%s]==%s.global_var_idx) for j in range({n}))'
          % (at.format('j'), ka.format('j'), ka.format('j'), at.format('j')))]
    reg.contract(EG + '._parse_variables', params=dict(self=G),
                 requires=[('nothing-numbered-yet', 'len(self.values_order)==0 and len(self.global_variables)==0'),
                           ('ids-distinct', 'all(implies(j!=l, %s!=%s) for j in range(len(self.scope_variables)) for l in range(len(self.scope_variables)))' % (ka.format('j'), ka.format('l')))],
                 modifies=['self.values_order', 'self.global_variables', 'self.set_variables', 'self.scalar_variables'],
                 ensures=[(a, x.format(n='len(self.scope_variables)')) for a, x in K],
                 loops=[LoopSpec([x.format(n='_k') for a, x in K] + ['0<=gl_offset and gl_offset<=_k and len(self.values_order)==_k-gl_offset']),
                        LoopSpec([x.format(n='len(self.scope_variables)') for a, x in K])])
    # order of states and derivatives
    N = TRef('Nd')
    reg.refs['Nd'] = RefClass(dict(node_type=Int), construct=False)
    reg.enums['NodeTypes'] = 'numerous.engine.model.utils:NodeTypes'
    GP = TObj('Program', )
    GG = TObj('EquationGenerator', topo_sorted_nodes=TList(Int), equation_graph=TObj('Gr', nodes=TDict(Int, N), key_map=TDict(Int, Str)), values_order=TDict(Str, Int),
              deriv=TList(Str), states=TList(Str), llvm=Bool, generated_program=TObj('Prog'), imports=TAny(), system_tag=Str, scope_variables=TDict(Str, V))
    for f in ('_process_equation_node', '_process_sum_node'):
        reg.contract(EG + '.' + f, params=dict(self=GG, n=Int), trusted='emits statements into the program (C04, C05, C18); numbers no variable', modifies=[])
    reg.external('Prog.generate', ret=TTuple(TAny(), TAny(), TAny()), names=['self', 'imports', 'system_tag', 'save_to_file'])
    reg.contract(EG + '.generate_equations', params=dict(self=GG, export_model=Bool, clonable=Bool),
                 requires=[('states-have-slots', 'all(s in self.values_order for s in self.states) and all(d in self.values_order for d in self.deriv)'),
                           ('nodes-known', 'all(n in self.equation_graph.nodes and n in self.equation_graph.key_map for n in self.topo_sorted_nodes)')],
                 raises=[('ValueError', 'True', 'may')],
                 loops=[LoopSpec([])],
                 ensures=[('states-in-kernel-order', 'len(result[5])==len(self.states) and all(result[5][i]==self.values_order[self.states[i]] for i in range(len(self.states)))'),
                          ('derivatives-in-kernel-order', 'len(result[6])==len(self.deriv) and all(result[6][i]==self.values_order[self.deriv[i]] for i in range(len(self.deriv)))')])
    # values by name
    M = TObj('Model', slots=TArr(Real), variables=TDict(Str, V), vars_ordered_values=TDict(Str, Int), _initial_variables_dict=TDict(Str, Real), aliases=TDict(Str, Str),
             inverse_aliases=TDict(Str, Str), state_idx=TArr(Int), numba_model=TObj('CM', slots=TArr(Real)))
    reg.classes['Model'] = MD
    reg.external('Model.var_write', names=['self', 'value', 'idx'], requires=[('slot-in-range', '0<=idx and idx<len(self.slots)')], modifies=['self.slots'],
                 ensures=['len(self.slots)==len(old(self.slots)) and self.slots[idx]==value and all(self.slots[s_]==old(self.slots)[s_] for s_ in range(len(self.slots)) if s_!=idx)'])
    reg.external('Model.var_func', names=['self'], returns='snap(self.slots)')
    reg.external('CM.read_variables', names=['self'], returns='snap(self.slots)')
    WF = [('slots-known', 'all(k in self.variables and 0<=self.vars_ordered_values[k] and self.vars_ordered_values[k]<len(self.slots) for k in self.vars_ordered_values)'),
          ('slots-distinct', 'all(implies(a!=b and a in self.vars_ordered_values and b in self.vars_ordered_values, self.vars_ordered_values[a]!=self.vars_ordered_values[b]) for a in strs() for b in strs())'),
          ('variables-distinct', 'all(implies(a!=b and a in self.variables and b in self.variables, refid(self.variables[a])!=refid(self.variables[b])) for a in strs() for b in strs())')]
    SLOT = 'self.slots[self.vars_ordered_values[{k}]]'
    NO = 'all(implies(all(implies(k in {d}, {g}self.vars_ordered_values[{i}]!=s) for k in strs()), self.slots[s]==old(self.slots)[s]) for s in range(len(self.slots)))'

    def others(d, i='k', g=''):
        return [('other-slots-kept', 'len(self.slots)==len(old(self.slots)) and ' + NO.format(d=d, i=i, g=g)),
                ('other-values-kept', "forall(lambda v: implies(all(implies(k in {d}, {g}refid(self.variables[{i}])!=refid(v)) for k in strs()), v.value==old(v.value)), T='Var')".format(d=d, i=i, g=g))]
    DI = 'self._initial_variables_dict'

    def wrote(d, i, n):
        c = 'implies(k in {d} and posof({d}, k)<{n}, {s}=={d}[k] and self.variables[{i}].value=={d}[k])'.format(d=d, n=n, s=SLOT.format(k=i), i=i)
        return 'all(%s for k in strs())' % c
    reg.contract(MD + '._reset', params=dict(self=M),
                 requires=WF + [('initial-values-of-variables', 'all(k in self.vars_ordered_values for k in %s)' % DI)],
                 modifies=['self.slots', 'Var.value'],
                 ensures=[('initial-values-back', wrote(DI, 'k', 'len(%s)' % DI))] + others(DI),
                 loops=[LoopSpec([wrote(DI, 'k', '_k')] + [x for a, x in others(DI, g='posof(%s, k)<_k and ' % DI)] if False else
                                 [wrote(DI, 'k', '_k')] + [x for a, x in others(DI)])])
    AL = 'self.aliases[k]'
    reg.contract(MD + '.set_variables', params=dict(self=M, variables=TDict(Str, Real)),
                 requires=WF + [('names-known', 'all(k in self.aliases and self.aliases[k] in self.vars_ordered_values for k in variables)'),
                                ('one-name-each', 'all(implies(a!=b and a in variables and b in variables, self.aliases[a]!=self.aliases[b]) for a in strs() for b in strs())')],
                 modifies=['self.slots', 'Var.value'],
                 ensures=[('values-by-name', wrote('variables', AL, 'len(variables)'))] + others('variables', AL),
                 loops=[LoopSpec([wrote('variables', AL, '_k')] + [x for a, x in others('variables', AL)])])
    VO = 'self.vars_ordered_values'
    reg.contract(MD + '.update_all_variables', params=dict(self=M), requires=WF, modifies=['self.slots'],
                 ensures=[('every-slot-its-variable', 'all(%s==self.variables[k].value for k in %s)' % (SLOT.format(k='k'), VO)),
                          others(VO)[0]],
                 loops=[LoopSpec(['all(implies(k in {d} and posof({d}, k)<_k, {s}==self.variables[k].value) for k in strs())'.format(d=VO, s=SLOT.format(k='k')), others(VO)[0][1]])])
    reg.contract(MD + '.update_local_variables', params=dict(self=M),
                 requires=[(a, x.replace('self.slots', 'self.numba_model.slots')) for a, x in WF], modifies=['Var.value'],
                 ensures=[('every-variable-its-slot', 'all(self.variables[k].value==self.numba_model.slots[%s[k]] for k in %s)' % (VO, VO)), others(VO)[1]],
                 loops=[LoopSpec(['all(implies(k in {d} and posof({d}, k)<_k, self.variables[k].value==self.numba_model.slots[{d}[k]]) for k in strs())'.format(d=VO), others(VO)[1][1]])])
    reg.contract(MD + '.states_as_vector', params=dict(self=M), requires=[('state-slots', 'all(0<=self.state_idx[i] and self.state_idx[i]<len(self.slots) for i in range(len(self.state_idx)))')],
                 ret=TArr(Real), ensures=[('states-by-slot', 'len(result)==len(self.state_idx) and all(result[i]==self.slots[self.state_idx[i]] for i in range(len(self.state_idx)))')])
    reg.contract(MD + '.get_variables_initial_values', params=dict(self=M), ret=TDict(Str, Real),
                 requires=[('names-unique', 'all(implies(a!=b and a in self.inverse_aliases and b in self.inverse_aliases, self.inverse_aliases[a]!=self.inverse_aliases[b]) for a in strs() for b in strs())')],
                 ensures=[('every-named-variable', 'all(implies(k in self.inverse_aliases, self.inverse_aliases[k] in result and result[self.inverse_aliases[k]]==%s[k]) for k in %s)' % (DI, DI)),
                          ('nothing-else', 'all(any(k in self.inverse_aliases and self.inverse_aliases[k]==n for k in %s) for n in result)' % DI)])

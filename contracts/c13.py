"""Reading through mappings, recording them, refusing bad assignments."""
from pyvc.spec import *

EXPLAIN = 'get_value, __get_value, add_mapping, add_sum_mapping, __iadd__, the value property and namespace attribute assignment ' \
          'against contracts over any acyclic graph of mappings (ghost VAL solving the value equations, ghost RANK for acyclicity).'
ASSUME = ['numbers treated as reals; values are opaque for refusal (a value is numeric when float() accepts it and it is not text)',
          'the mapping graph is acyclic apart from a variable that is one of its own summands (otherwise the value is undefined)',
          'namespace entries looked up by name are the dictionary entries (python attribute protocol of _DictWrapper)']
V = 'numerous.engine.variables:'


def build(reg):
    R = TRef('Var')
    reg.refs['Var'] = RefClass(dict(id=Str, tag=Str, mapping=TOpt(R), sum_mapping=TList(R), special_mapping=Bool, _value=Real, llvm_idx=TOpt(Int)),
                               qual=V + 'Variable', construct=False)
    reg.classes['Var'] = V + 'Variable'
    reg.fn('VAL', [('v', R)], Real, "app('VAL', Real, v)")
    reg.fn('LIM', [('v', R)], Real, "app('LIM', Real, v)")
    reg.fn('RANK', [('i', Str)], Int, "app('RANK', Int, i)")
    reg.fn('TERM', [('v', R), ('x', R)], Real, '(v._value if refid(x)==refid(v) else LIM(x))')
    EQ = '(LIM(some({v}.mapping)) if not isnone({v}.mapping) else sum(TERM({v}, x) for x in {v}.sum_mapping) if len({v}.sum_mapping)>0 else {v}._value)'
    G = [('values-solve-the-mapping-equations', "forall(lambda v: VAL(v)==%s, T='Var', pat=VAL(v))" % EQ.format(v='v')),
         ('same-value', "forall(lambda v: VAL(v)==LIM(v), T='Var', pat=VAL(v))"),
         ('mappings-are-acyclic', "forall(lambda v: (isnone(v.mapping) or RANK(some(v.mapping).id)<RANK(v.id)) and "
          "all(refid(v.sum_mapping[k])==refid(v) or RANK(v.sum_mapping[k].id)<RANK(v.id) for k in range(len(v.sum_mapping))), T='Var')")]
    G.append(('names-are-unique', "forall(lambda v: app('REFOF', Int, v.id)==refid(v), T='Var')"))
    reg.contract(V + 'MappedValue.get_value', params=dict(self=R), requires=G, use_pre="check(VAL(self)==%s, 'value-equation-here')" % EQ.format(v='self'),
                 returns='VAL(self)', ret=Real)
    reg.contract(V + 'MappedValue.__get_value', params=dict(self=R, ids=TList(Str)),
                 requires=G + [('seen-variables-are-above', 'all(RANK(ids[k])>=RANK(self.id) for k in range(len(ids)))')],
                 use_pre="check(all(implies(refid(self.sum_mapping[k])!=refid(self), not (self.sum_mapping[k].id in ids) and self.sum_mapping[k].id!=self.id) for k in range(len(self.sum_mapping))), 'summands-not-seen-yet'); check(VAL(self)==%s, 'value-equation-here')" % EQ.format(v='self'),
                 returns='(self._value if self.id in ids else VAL(self))', ret=Real)
    # recording
    reg.contract(V + 'MappedValue.add_mapping', params=dict(self=R, variable=R),
                 modifies=['self.mapping', 'self.special_mapping'],
                 raises=[('RecursionError', 'variable.id==self.id and not self.special_mapping', 'iff')],
                 raise_ensures=[('nothing-changes', 'same(self.mapping, old(self.mapping)) and self.special_mapping==old(self.special_mapping)')],
                 ensures=[('mapping-recorded', 'implies(variable.id!=self.id, not isnone(self.mapping) and refid(some(self.mapping))==refid(variable))'),
                          ('not-mapped-to-itself', 'implies(variable.id==self.id, same(self.mapping, old(self.mapping)))'),
                          ('assignment-finished', 'not self.special_mapping')])
    reg.contract(V + 'MappedValue.add_sum_mapping', params=dict(self=R, variable=R), modifies=['self.sum_mapping'],
                 ensures=[('summand-recorded', 'len(self.sum_mapping)==len(old(self.sum_mapping))+1 and refid(self.sum_mapping[len(old(self.sum_mapping))])==refid(variable)'),
                          ('earlier-summands-kept', 'all(refid(self.sum_mapping[k])==refid(old(self.sum_mapping)[k]) for k in range(len(old(self.sum_mapping))))')])
    reg.contract(V + 'MappedValue.__iadd__', params=dict(self=R, other=R), modifies=['self.sum_mapping', 'self.special_mapping'], ret=R,
                 raises=[('ValueError', 'not isnone(self.mapping)', 'iff')],
                 raise_ensures=[('nothing-changes', 'len(self.sum_mapping)==len(old(self.sum_mapping)) and self.special_mapping==old(self.special_mapping)')],
                 ensures=[('summand-recorded', 'len(self.sum_mapping)==len(old(self.sum_mapping))+1 and refid(self.sum_mapping[len(old(self.sum_mapping))])==refid(other)'),
                          ('earlier-summands-kept', 'all(refid(self.sum_mapping[k])==refid(old(self.sum_mapping)[k]) for k in range(len(old(self.sum_mapping))))'),
                          ('same-variable', 'refid(result)==refid(self)')])
    # namespace entries
    N = TObj('Namespace', outgoing_mappings=Int, variables=TDict(Str, R))
    NS = 'numerous.engine.system.namespace:VariableNamespaceBase'
    reg.classes['Namespace'] = NS
    reg.contract(NS + '.__getitem__', params=dict(self=N, y=Str), ret=R, raises=[('KeyError', 'y not in self.variables', 'iff')],
                 ensures=[('entry-of-that-name', 'refid(result)==refid(self.variables[y])')])
    e = 'self.variables[name]'
    reg.contract(NS + '.__setattr__', params=dict(self=N, name=Str, value=R), when=lambda v, args: isinstance(args[1], SV) and isinstance(args[1].t, TRef),
                 modifies=['self.outgoing_mappings', e + '.mapping', e + '.special_mapping'],
                 raises=[('KeyError', 'name not in self.variables', 'iff'),
                         ('RecursionError', 'name in self.variables and value.id==%s.id and not %s.special_mapping' % (e, e), 'iff')],
                 raise_ensures=[('no-mapping-changes', "forall(lambda v: same(v.mapping, old(v.mapping)), T='Var')")],
                 ensures=[('mapping-recorded', 'implies(value.id!={0}.id, not isnone({0}.mapping) and refid(some({0}.mapping))==refid(value))'.format(e)),
                          ('not-mapped-to-itself', 'implies(value.id=={0}.id, same({0}.mapping, old({0}.mapping)))'.format(e)),
                          ('that-entry-only', "forall(lambda v: implies(refid(v)!=refid(%s), same(v.mapping, old(v.mapping))), T='Var')" % e)])
    # values
    B = TObj('VarBox', _value=TAny(), llvm_idx=TOpt(Int), id=Str, stored=TAny(), stored_at=Int)
    reg.classes['VarBox'] = V + 'Variable'
    reg.fn('numeric', [('x', None)], None, numeric)
    reg.contract(V + 'MappedValue.write_variable', params=dict(self=B, value=TAny(), llvm_idx=TOpt(Int)), modifies=['self.stored', 'self.stored_at'],
                 trusted='replaced on every variable by the generated slot writer when a model is built (C05)',
                 requires=[('numeric', 'numeric(value)')], ensures=['same(self.stored, value) and self.stored_at==some(llvm_idx)'])
    reg.contract(V + 'Variable.value', params=dict(self=B), returns='self._value', ret=TAny())
    reg.contract(V + 'Variable.value.setter', params=dict(self=B, value=TAny()), modifies=['self._value', 'self.stored', 'self.stored_at'],
                 raises=[('ValueError', 'not numeric(value)', 'iff')],
                 raise_ensures=[('old-value-kept', 'same(self._value, old(self._value)) and same(self.stored, old(self.stored))')],
                 ensures=[('value-kept', 'same(self._value, value)'),
                          ('value-reaches-its-slot', 'implies(not isnone(self.llvm_idx), same(self.stored, value) and self.stored_at==some(self.llvm_idx))'),
                          ('no-slot-no-write', 'implies(isnone(self.llvm_idx), same(self.stored, old(self.stored)))')])


def numeric(v, x):
    x = v.unopt(x)
    A = AnySort
    z = x.z
    return mk(Bool, z3.Or(A.is_AInt(z), A.is_AReal(z), A.is_ABool(z),
                          z3.And(z3.Not(A.is_AStr(z)), z3.Not(z3.And(A.is_AOther(z), z3.Function('any_isinstance_bytes', AnySort, z3.BoolSort())(z))), z3.Function('any_floatable', AnySort, z3.BoolSort())(z))))

"""Reset and repetition: what a second run starts from."""
from .compiled import *

EXPLAIN = 'Simulation.__init__ (up to the generation of the solver model), Simulation.reset, Model._reset, CompiledModel.func/get_states/historian_reinit and the ' \
          'recording of initial values (end of Model.assemble, Model.lower_model_codegen, Model.clone) against contracts over a ghost kernel with any initial ' \
          'values, states and history. That two models do not share kernels, values or histories is decided by bounded runs (classes are created at run time).'
ASSUME = ['generated kernel: a function of time, states and the slots it does not compute; writes the given states and computed slots only (C04, C05)',
          'map_external_data changes externally driven and computed slots only (proved as C08)', 'floating-point values treated as reals',
          'creation of the per-model class in _generate_compiled_model is not under contract: bounded (two models, every interleaving)']
SM = 'numerous.engine.simulation.simulation:Simulation'
MD = 'numerous.engine.model.model:Model'


def build(reg):
    reg.nan_value = True
    reg.fn('isnan', [('x', Real)], None, lambda v, x: mk(Bool, v.scalar(x, Real) == z3.Const('py:nan', z3.RealSort())))
    for f in ('computed', 'driven'):
        reg.fn(f, [('s', Int)], None, lambda v, s, f=f: mk(Bool, z3.Function(f + '_slot', z3.IntSort(), z3.BoolSort())(v.scalar(s, Int))))
    reg.classes['CompiledModel'] = CM
    K = TObj('Kernel', vals=TArr(Real))
    C = dict(state_idx=TArr(Int), deriv_idx=TArr(Int), global_vars=TArr(Real), init_vars=TArr(Real), historian_ix=Int, historian_max_size=Int,
             historian_data=TArr(Real, 2), is_external_data=Bool, max_external_t=Real, min_external_t=Real)
    V = TRef('Var')
    reg.refs['Var'] = RefClass(dict(id=Str, global_var=Bool, value=Real, llvm_idx=Int, logger_level=TOpt(Int)), construct=False)
    S = TObj('CompiledModel', kernel=K, **C)
    reg.external('CompiledModel.read_variables', names=['self'], returns='snap(self.kernel.vals)')
    WR = 'len({0}.kernel.vals)==len(old({0}.kernel.vals)) and {0}.kernel.vals[idx]==value and all({0}.kernel.vals[s_]==old({0}.kernel.vals)[s_] for s_ in range(len({0}.kernel.vals)) if s_!=idx)'
    IN = [('slot-in-range', '0<=idx and idx<len(self.kernel.vals)')]
    reg.external('CompiledModel.write_variables', names=['self', 'value', 'idx'], requires=IN, modifies=['self.kernel.vals'], ensures=[WR.format('self')])
    reg.external('Model.var_write', names=['self', 'value', 'idx'], requires=IN, modifies=['self.kernel.vals'], ensures=[WR.format('self')])
    ns = 'not any({p}state_idx[i_]==s_ for i_ in range(len({p}state_idx)))'
    kept = 'all({p}kernel.vals[s_]==old({p}kernel.vals)[s_] for s_ in range(len({p}kernel.vals)) if not computed(s_) and '
    reg.external('CompiledModel.compiled_compute', names=['self', 'y'],
                 requires=[('one-value-per-state', 'len(y)==len(self.state_idx)')], modifies=['self.kernel.vals'], ret=TArr(Real),
                 ensures=['len(result)==len(self.deriv_idx) and len(self.kernel.vals)==len(old(self.kernel.vals))',
                          'all(self.kernel.vals[self.state_idx[s_]]==y[s_] for s_ in range(len(self.state_idx)))',
                          (kept + ns + ')').format(p='self.')])
    WF = [('distinct-state-slots', "all(0<={p}state_idx[i] and {p}state_idx[i]<len({p}kernel.vals) for i in range(len({p}state_idx)))"
           " and all({p}state_idx[i]!={p}state_idx[j] for i in range(len({p}state_idx)) for j in range(i))"),
          ('time-slot-exists', "len({p}global_vars)>=1"),
          ('nobody-computes-a-state', 'all(not computed({p}state_idx[i]) for i in range(len({p}state_idx)))')]
    wf = lambda p: [(a, x.format(p=p)) for a, x in WF]
    reg.contract(CM + '.get_states', params=dict(self=S), requires=wf('self.'), ret=TArr(Real),
                 ensures=[('states', 'len(result)==len(self.state_idx) and all(result[i]==self.kernel.vals[self.state_idx[i]] for i in range(len(self.state_idx)))')])
    reg.contract(CM + '.func', params=dict(self=S, _t=Real, y=TArr(Real)), requires=wf('self.') + [('one-value-per-state', 'len(y)==len(self.state_idx)')],
                 modifies=['self.kernel.vals', 'self.global_vars'], ret=TArr(Real),
                 ensures=[('time', 'len(self.global_vars)==len(old(self.global_vars)) and self.global_vars[0]==_t and all(self.global_vars[g]==old(self.global_vars)[g] for g in range(1, len(self.global_vars)))'),
                          ('states', 'len(self.kernel.vals)==len(old(self.kernel.vals)) and all(self.kernel.vals[self.state_idx[s]]==y[s] for s in range(len(self.state_idx)))'),
                          ('only-computed-slots-change', (kept + ns + ')').format(p='self.'))])
    EMPTY = ('{p}historian_ix==0 and {p}historian_data.shape[1]=={p}historian_max_size and {p}historian_data.shape[0]==len({p}init_vars)+1 and '
             'all(isnan({p}historian_data[r,k]) for r in range({p}historian_data.shape[0]) for k in range({p}historian_data.shape[1]))')
    reg.contract(CM + '.historian_reinit', params=dict(self=S), requires=[('size', 'self.historian_max_size>=0')], modifies=['self.historian_data', 'self.historian_ix'],
                 ensures=[('empty', EMPTY.format(p='self.'))])
    reg.contract(CM + '.is_external_data_update_needed', params=dict(self=S, t=Real), ret=Bool,
                 ensures=[('needed', 'iff(result, self.is_external_data and (t>self.max_external_t or t<self.min_external_t))')])
    reg.contract(CM + '.update_external_data', params=dict(self=S, external_mappings_numpy=TAny(), external_mappings_time=TAny(), max_external_t=Real, min_external_t=Real),
                 modifies=['self.max_external_t', 'self.min_external_t', 'self.external_mappings_time', 'self.external_mappings_numpy'],
                 ensures=['self.max_external_t==max_external_t and self.min_external_t==min_external_t'])
    reg.fields[('CompiledModel', 'external_mappings_time')] = TAny()
    reg.fields[('CompiledModel', 'external_mappings_numpy')] = TAny()
    reg.contract(CM + '.map_external_data', params=dict(self=S, t=Real), requires=wf('self.'), modifies=['self.kernel.vals', 'self.global_vars'],
                 ensures=['len(self.kernel.vals)==len(old(self.kernel.vals)) and len(self.global_vars)==len(old(self.global_vars))',
                          'all(self.global_vars[g]==old(self.global_vars)[g] for g in range(1, len(self.global_vars)))',
                          (kept + 'not driven(s_))').format(p='self.')], trusted='changes externally driven and computed slots only: C08')
    # model
    M = dict(variables=TDict(Str, V), vars_ordered_values=TDict(Str, Int), _initial_variables_dict=TDict(Str, Real))
    MT = TObj('Model', kernel=K, **M)
    reg.classes['Model'] = MD
    DI = '{m}_initial_variables_dict'
    MWF = [('slots-known', 'all(k in {m}variables and 0<={m}vars_ordered_values[k] and {m}vars_ordered_values[k]<len({m}kernel.vals) for k in {m}vars_ordered_values)'),
           ('slots-distinct', 'all(implies(a!=b and a in {m}vars_ordered_values and b in {m}vars_ordered_values, {m}vars_ordered_values[a]!={m}vars_ordered_values[b]) for a in strs() for b in strs())'),
           ('variables-distinct', 'all(implies(a!=b and a in {m}variables and b in {m}variables, refid({m}variables[a])!=refid({m}variables[b])) for a in strs() for b in strs())'),
           ('initial-values-of-variables', 'all(k in {m}vars_ordered_values for k in %s)' % DI)]
    mwf = lambda m: [(a, x.format(m=m)) for a, x in MWF]
    back = 'all(implies(k in {d} and posof({d}, k)<{n}, {c}{m}kernel.vals[{m}vars_ordered_values[k]]=={d}[k]{e} and {m}variables[k].value=={d}[k]) for k in strs())'

    def BACK(m, n=None, c='', e=''):
        d = DI.format(m=m)
        return back.format(d=d, m=m, n=n or 'len(%s)' % d, c=c, e=e)
    others = 'len(self.kernel.vals)==len(old(self.kernel.vals)) and all(implies(all(implies(k in %s, self.vars_ordered_values[k]!=s) for k in strs()), self.kernel.vals[s]==old(self.kernel.vals)[s]) for s in range(len(self.kernel.vals)))' % DI.format(m='self.')
    reg.contract(MD + '._reset', params=dict(self=MT), requires=mwf('self.'), modifies=['self.kernel.vals', 'Var.value'],
                 ensures=[('initial-values-back', BACK('self.')), ('other-slots-kept', others)],
                 loops=[LoopSpec([BACK('self.', '_k'), others])])
    # simulation
    E = TObj('ExternalMapping', external_mappings_numpy=TAny(), external_mappings_time=TAny(), t_max=Real, t_min=Real)
    reg.external('ExternalMapping.load_new_external_data_batch', names=['self', 't'], ret=Bool,
                 modifies=['self.external_mappings_numpy', 'self.external_mappings_time', 'self.t_max', 'self.t_min'])
    MM = TObj('Model', external_mappings=E, historian_df=TAny(), kernel=K, **M)

    def sim(v, env, cls='Simulation'):
        env['self'] = o = v.symbolic(TObj(cls, model=MM), 'self')
        m = v.st.objs[o.addr][1]['model']
        nm = v.symbolic(TObj('CompiledModel', **C), 'nm')
        v.st.objs[nm.addr][1]['kernel'] = v.getattr(m, 'kernel')
        v.st.objs[m.addr][1]['numba_model'] = nm
        return o
    reg.classes['Simulation'] = SM
    m, n = 'self.model.', 'self.model.numba_model.'
    # initial values are back except where the kernel computes or a table drives the variable
    c = 'implies(not computed(%svars_ordered_values[k]) and not driven(%svars_ordered_values[k]), ' % (m, m)
    PRE = mwf(m) + wf(n) + [('size', n + 'historian_max_size>=0')]
    MOD = [m + 'kernel.vals', 'Var.value', n + 'historian_data', n + 'historian_ix', n + 'global_vars', n + 'is_external_data', n + 'max_external_t', n + 'min_external_t',
           n + 'external_mappings_time', n + 'external_mappings_numpy', (m + 'historian_df', TAny()), m + 'external_mappings.external_mappings_numpy',
           m + 'external_mappings.external_mappings_time', m + 'external_mappings.t_max', m + 'external_mappings.t_min']
    POST = [('initial-values-back', BACK(m, c=c, e=')')), ('history-forgotten', 'isnone(%shistorian_df)' % m), ('buffer-empty', EMPTY.format(p=n)),
            ('starts-at-the-start-time', n + 'global_vars[0]==t_start'), ('other-globals-kept', 'len({n}global_vars)==len(old({n}global_vars)) and all({n}global_vars[g]==old({n}global_vars)[g] for g in range(1, len({n}global_vars)))'.format(n=n))]
    reg.contract(SM + '.__init_step', params=dict(self=sim), ensures=['True'])
    reg.contract(SM + '.reset', params=dict(self=sim, t_start=Real), requires=PRE, modifies=MOD, ensures=POST)
    # a second simulation of the same model starts with the reset
    def gen(v, env):
        env['model'] = o = v.symbolic(MM, 'model')
        nm = v.symbolic(TObj('CompiledModel', **C), 'nm')
        v.st.objs[nm.addr][1]['kernel'] = v.getattr(o, 'kernel')
        v.st.objs[o.addr][1]['numba_model'] = nm
        return o
    reg.external('numpy.linspace', names=['start', 'stop', 'num', 'retstep'], ret=TTuple(TArr(Real), Real), requires=[('step-asked-for', 'retstep')],
                 ensures=['len(result[0])==num'])
    reg.fields[('Simulation', 'time')] = TArr(Real)
    reg.contract(SM + '.__init__#again', part=(None, r'log\.info\(f.Number of steps'), params=dict(self=TObj('Simulation'), model=gen, t_start=Real, t_stop=Real, num=Int, start_datetime=TAny()),
                 requires=[(a, x.replace('self.model.', 'model.')) for a, x in PRE] + [('points', 'num>=1')],
                 modifies=['self.time', 'self.model'] + [tuple(y.replace('self.model.', 'model.') if isinstance(y, str) else y for y in x) if isinstance(x, tuple) else x.replace('self.model.', 'model.') for x in MOD],
                 ensures=[(a, x.replace('self.model.', 'model.')) for a, x in POST] + [('points', 'len(self.time)==num+1')])
    # recording of initial values
    DV = TDict(Str, V)
    reg.fields[('Model', '_initial_variables_dict')] = TDict(Str, Real)
    reg.fields[('Model', 'init_values')] = TArr(Real)
    reg.contract(MD + '.assemble#initial', part=(r'self\._initial_variables_dict = ', None), params=dict(self=TObj('Model', variables=DV)), modifies=['self._initial_variables_dict'],
                 ensures=[('value-of-every-variable', 'all(implies(k in self.variables and not self.variables[k].global_var, k in {d} and {d}[k]==self.variables[k].value) for k in strs())'.format(d='self._initial_variables_dict')),
                          ('nothing-else', 'all(k in self.variables and not self.variables[k].global_var for k in self._initial_variables_dict)')])
    reg.contract(MD + '.lower_model_codegen#initial', part=(r'self\.init_values = ', r'self\.update_all_variables\(\)'), params=dict(self=TObj('Model', variables=DV, vars_ordered_values=TDict(Str, Int)), tmp_vars=TAny()),
                 requires=[('slots-of-variables', 'all(k in self.variables for k in self.vars_ordered_values)')], modifies=['self.init_values'],
                 ensures=[('one-value-per-slot', 'len(self.init_values)==len(self.vars_ordered_values) and all(self.init_values[i]==self.variables[keyat(self.vars_ordered_values, i)].value for i in range(len(self.vars_ordered_values)))')])

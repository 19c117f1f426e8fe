"""External data: the value each mapped variable gets at time t, and when new data is requested."""
from .compiled import *

EXPLAIN = 'map_external_data, step_approximation, closest_time_idx, is_external_data_update_needed, update_external_data and ' \
          '_load_external_data against contracts for every table, time and previous variable value.'
ASSUME = ASSUME + ['numpy.interp and numpy.searchsorted: assumed contracts (piecewise linear with clamping; insertion point on the right)',
                   'time columns are increasing and every table has at least one row']
CMOD = 'numerous.engine.model.compiled_model:'
EPS = '2.220446049250313e-14'


def build(reg):
    setup(reg)
    reg.globals[('numerous.engine.model.compiled_model', 'FEPS')] = 2.220446049250313e-16
    S = cm_type(is_external_data=Bool, max_external_t=Real, min_external_t=Real, external_idx=TArr(Int),
                external_mappings_time=TArr(Real, 2), number_of_external_mappings=Int, external_mappings_numpy=TArr(Real, 3),
                external_df_idx=TArr(Int, 2), approximation_type=TArr(Bool), previous_external_mappings=TArr(Real))
    reg.external('numpy.searchsorted', names=['a', 'v', 'side'], ret=Int,
                 requires=[('from-the-right', "side=='right'"), ('sorted', 'all(a[k_]<=a[k_+1] for k_ in range(len(a)-1))')],
                 ensures=['0<=result and result<=len(a)', 'all(a[k_]<=v for k_ in range(result))', 'all(a[k_]>v for k_ in range(result,len(a)))'])
    reg.external('numpy.interp', names=['x', 'xp', 'fp'], ret=Real,
                 requires=[('same-length', 'len(xp)==len(fp) and len(xp)>=1'), ('increasing', 'all(xp[k_]<xp[k_+1] for k_ in range(len(xp)-1))')],
                 ensures=['implies(x<=xp[0], result==fp[0])', 'implies(x>=xp[len(xp)-1], result==fp[len(xp)-1])',
                          'all(implies(xp[k_]<=x and x<=xp[k_+1], result==fp[k_]+(x-xp[k_])*(fp[k_+1]-fp[k_])/(xp[k_+1]-xp[k_])) for k_ in range(len(xp)-1))'])
    SRT = 'all(time_array[k]<time_array[k+1] for k in range(len(time_array)-1))'
    reg.contract(CMOD + 'closest_time_idx', params=dict(t=Real, time_array=TArr(Real)), ret=Int,
                 requires=[('increasing', SRT)],
                 ensures=[('last-row-not-after-t', '-1<=result and result<len(time_array) and all(time_array[k]<=t+%s for k in range(result+1)) and '
                           'all(time_array[k]>t+%s for k in range(result+1,len(time_array)))' % (EPS, EPS))])
    reg.contract(CMOD + 'step_approximation', params=dict(t=Real, time_array=TArr(Real), data_array=TArr(Real)), ret=Real,
                 requires=[('increasing', SRT), ('rows', 'len(time_array)>=1 and len(data_array)==len(time_array)'),
                           ('not-before-the-data', 'time_array[0]<=t')],
                 ensures=[('value-of-the-last-row', 'all(implies(time_array[k]<=t+{0} and (k+1==len(time_array) or time_array[k+1]>t+{0}), '
                           'result==data_array[k]) for k in range(len(time_array)))'.format(EPS))])
    # slots the kernel computes itself: never states, never externally driven
    reg.fn('computed', [('s', Int)], None, lambda v, s: mk(Bool, z3.Function('computed_slot', z3.IntSort(), z3.BoolSort())(v.scalar(s, Int))))
    reg.external('CompiledModel.compiled_compute', names=['self', 'y'],
                 requires=[('one-value-per-state', 'len(y)==len(self.state_idx)')], modifies=['self.vals'], ret=TArr(Real),
                 ensures=['len(result)==len(self.deriv_idx) and len(self.vals)==len(old(self.vals))',
                          'all(self.vals[self.state_idx[s_]]==y[s_] for s_ in range(len(self.state_idx)))',
                          'all(self.vals[s_]==old(self.vals)[s_] for s_ in range(len(self.vals)) if not computed(s_) and '
                          'not any(self.state_idx[i_]==s_ for i_ in range(len(self.state_idx))))'])
    EXT = [('tables', 'self.external_mappings_numpy.shape[0]==self.external_mappings_time.shape[0] and '
            'self.external_mappings_numpy.shape[1]==self.external_mappings_time.shape[1] and self.external_mappings_time.shape[1]>=1'),
           ('increasing-times', 'all(self.external_mappings_time[d,k]<self.external_mappings_time[d,k+1] for d in range(self.external_mappings_time.shape[0]) '
            'for k in range(self.external_mappings_time.shape[1]-1))'),
           ('mappings', 'self.number_of_external_mappings>=0 and len(self.external_idx)==self.number_of_external_mappings and len(self.approximation_type)==self.number_of_external_mappings and '
            'self.external_df_idx.shape[0]==self.number_of_external_mappings and implies(self.number_of_external_mappings>0, self.external_df_idx.shape[1]==2)'),
           ('columns', 'all(0<=self.external_df_idx[i,0] and self.external_df_idx[i,0]<self.external_mappings_time.shape[0] and 0<=self.external_df_idx[i,1] '
            'and self.external_df_idx[i,1]<self.external_mappings_numpy.shape[2] for i in range(self.number_of_external_mappings))'),
           ('slots', 'all(0<=self.external_idx[i] and self.external_idx[i]<len(self.vals) and not computed(self.external_idx[i]) and '
            'all(self.external_idx[j]!=self.external_idx[i] for j in range(i)) and '
            'not any(self.state_idx[s]==self.external_idx[i] for s in range(len(self.state_idx))) for i in range(self.number_of_external_mappings))'),
           ('not-before-the-data', 'all(self.external_mappings_time[d,0]<=t for d in range(self.external_mappings_time.shape[0]))')]
    T, X = 'self.external_mappings_time[self.external_df_idx[i,0],%s]', 'self.external_mappings_numpy[self.external_df_idx[i,0],%s,self.external_df_idx[i,1]]'
    n = 'self.external_mappings_time.shape[1]'

    def val(v):
        lin = ('implies({T0}<=t and t<={T1}, {v}=={X0}+(t-{T0})*({X1}-{X0})/({T1}-{T0}))'
               .format(T0=T % 'k', T1=T % '(k+1)', X0=X % 'k', X1=X % '(k+1)', v=v))
        stp = 'implies({T0}<=t+{e} and (k+1=={n} or {T1}>t+{e}), {v}=={X0})'.format(T0=T % 'k', T1=T % '(k+1)', X0=X % 'k', v=v, n=n, e=EPS)
        return ('implies(self.approximation_type[i], all(%s for k in range(%s-1)) and implies(t>=%s, %s==%s)) and '
                'implies(not self.approximation_type[i], all(%s for k in range(%s)))' % (lin, n, T % ('(%s-1)' % n), v, X % ('(%s-1)' % n), stp, n))
    kept = 'all(self.vals[s]==old(self.vals)[s] for s in range(len(self.vals)) if %s not any(self.external_idx[i]==s for i in range(%s)))'
    reg.contract(CM + '.map_external_data', params=dict(self=S, t=Real), requires=WF + EXT,
                 modifies=['self.vals', 'self.global_vars', 'self.previous_external_mappings'],
                 ensures=[('every-mapped-variable-has-its-value', 'implies(self.is_external_data, all(%s for i in range(self.number_of_external_mappings)))'
                           % val('self.vals[self.external_idx[i]]')),
                          ('no-other-variable-touched-directly', 'len(self.vals)==len(old(self.vals)) and ' + kept % (
                              'not computed(s) and not any(self.state_idx[i]==s for i in range(len(self.state_idx))) and', 'self.number_of_external_mappings')),
                          ('states-kept', 'all(self.vals[self.state_idx[i]]==old(self.vals)[self.state_idx[i]] for i in range(len(self.state_idx)))'),
                          ('nothing-without-external-data', 'implies(not self.is_external_data, all(self.vals[s]==old(self.vals)[s] for s in range(len(self.vals))))')],
                 loops=[LoopSpec(['len(next_values)==self.number_of_external_mappings', 'all(%s for i in range(_k))' % val('next_values[i]')]),
                        LoopSpec(['len(self.vals)==len(old(self.vals))',
                                  'all(self.vals[self.external_idx[i]]==next_values[i] for i in range(_k))',
                                  kept % ('', '_k')])])
    reg.contract(CM + '.is_external_data_update_needed', params=dict(self=S, t=Real), ret=Bool,
                 ensures=[('exactly-outside-the-loaded-range', 'iff(result, self.is_external_data and (t>self.max_external_t or t<self.min_external_t))')])
    reg.contract(CM + '.func', params=dict(self=S, _t=Real, y=TArr(Real)), requires=WF + [('one-value-per-state', 'len(y)==len(self.state_idx)')],
                 modifies=['self.vals', 'self.global_vars'], ret=TArr(Real),
                 ensures=[('slots', 'len(self.vals)==len(old(self.vals)) and len(self.global_vars)==len(old(self.global_vars))'),
                          ('states', 'all(self.vals[self.state_idx[s]]==y[s] for s in range(len(self.state_idx)))'),
                          ('only-computed-slots-change', 'all(self.vals[s]==old(self.vals)[s] for s in range(len(self.vals)) if not computed(s) and '
                           'not any(self.state_idx[i]==s for i in range(len(self.state_idx))))')])
    reg.contract(CM + '.get_states', params=dict(self=S), requires=WF, ret=TArr(Real),
                 ensures=[('states', 'len(result)==len(self.state_idx) and all(result[i]==self.vals[self.state_idx[i]] for i in range(len(self.state_idx)))')])
    same = 'same_arr({0}, {1})'
    reg.fn('same_arr', [('a', None), ('b', None)], None, same_arr)
    reg.contract(CM + '.update_external_data', params=dict(self=S, external_mappings_numpy=TArr(Real, 3), external_mappings_time=TArr(Real, 2),
                                                           max_external_t=Real, min_external_t=Real),
                 modifies=['self.external_mappings_time', 'self.external_mappings_numpy', 'self.max_external_t', 'self.min_external_t'],
                 ensures=[('range', 'self.max_external_t==max_external_t and self.min_external_t==min_external_t'),
                          ('tables', same.format('self.external_mappings_numpy', 'external_mappings_numpy') + ' and ' +
                           same.format('self.external_mappings_time', 'external_mappings_time'))])
    E = TObj('ExternalMapping', external_mappings_numpy=TArr(Real, 3), external_mappings_time=TArr(Real, 2), t_max=Real, t_min=Real)
    reg.external('ExternalMapping.load_new_external_data_batch', names=['self', 't'], ret=Bool,
                 modifies=['self.external_mappings_numpy', 'self.external_mappings_time', 'self.t_max', 'self.t_min'])
    H = TObj('NumerousEngineEventHandler', _model=TObj('Model', external_mappings=E), _nm=S)
    reg.classes['NumerousEngineEventHandler'] = SI + 'NumerousEngineEventHandler'
    e = 'self._model.external_mappings.'
    reg.contract(SI + 'NumerousEngineEventHandler._load_external_data', params=dict(self=H, t=Real),
                 modifies=['self._nm.external_mappings_time', 'self._nm.external_mappings_numpy', 'self._nm.max_external_t',
                           'self._nm.min_external_t', 'self._nm.is_external_data', e + 'external_mappings_numpy', e + 'external_mappings_time',
                           e + 't_max', e + 't_min'],
                 raises=[('ValueError', 'True', 'may')],
                 ensures=[('loaded-tables-used', same.format('self._nm.external_mappings_numpy', e + 'external_mappings_numpy') + ' and ' +
                           same.format('self._nm.external_mappings_time', e + 'external_mappings_time')),
                          ('loaded-range-used', 'self._nm.max_external_t==%st_max and self._nm.min_external_t==%st_min' % (e, e)),
                          ('covers-t', 't<=self._nm.max_external_t')])


def same_arr(v, a, b_):
    la, lb = v.as_lazy(a), v.as_lazy(b_)
    ix = [v.qvar('sa', z3.IntSort()) for _ in la.shape]
    g = z3.And(*[z3.And(0 <= i, i < iz(n)) for i, n in zip(ix, la.shape)])
    return mk(Bool, z3.And(*[iz(p) == iz(q) for p, q in zip(la.shape, lb.shape)],
                           z3.ForAll(ix, z3.Implies(g, v.scalar(la.fn(*ix), Real) == v.scalar(lb.fn(*ix), Real)))))

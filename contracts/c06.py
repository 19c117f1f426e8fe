"""States, derivatives, Jacobian, residual as seen by the solver."""
from .compiled import *

EXPLAIN = 'get_states, set_states, func, vectorized_full_jacobian, get_g of CompiledModel and the delegating methods of ' \
          'NumerousEngineModelInterface, each against its contract, for every number of states, slots and values.'


def build(reg):
    setup(reg)
    S = cm_type()
    kernel_states(reg, S)
    reg.contract(CM + '.func', params=dict(self=S, _t=Real, y=TArr(Real)),
                 requires=WF + [('one-value-per-state', 'len(y)==len(self.state_idx)')],
                 modifies=['self.global_vars', 'self.vals'], ret=TArr(Real),
                 ensures=[('derivatives-of-the-given-states-at-t', "len(result)==len(y) and all(result[j]==D(_t,y,j) for j in range(len(y)))"),
                          ('time-handed-over', 'self.global_vars[0]==_t'),
                          ('other-globals-kept', 'len(self.global_vars)==len(old(self.global_vars)) and '
                           'all(self.global_vars[g]==old(self.global_vars)[g] for g in range(1,len(self.global_vars)))'),
                          ('slots-kept', 'len(self.vals)==len(old(self.vals))'),
                          ('states-are-y', 'all(self.vals[self.state_idx[i]]==y[i] for i in range(len(y)))')])
    reg.fn('bumped', [('y', None), ('i', None), ('h', None)], None,
           lambda v, y, i, h: LazyArr(Real, v.as_lazy(y).shape, lambda k: mk(Real, z3.If(
               iz(k) == v.scalar(i, Int), v.scalar(v.as_lazy(y).fn(k), Real) + v.scalar(h, Real), v.scalar(v.as_lazy(y).fn(k), Real)))))
    keep = ['len(self.vals)==len(old(self.vals)) and len(self.global_vars)==len(old(self.global_vars))']
    reg.contract(CM + '.vectorized_full_jacobian', params=dict(self=S, t=Real, y=TArr(Real), dt=Real),
                 requires=WF + [('one-value-per-state', 'len(y)==len(self.state_idx)')],
                 modifies=['self.global_vars', 'self.vals'], ret=TArr(Real, 2),
                 ensures=[('square', 'result.shape[0]==len(y) and result.shape[1]==len(y)'),
                          ('entry-is-forward-difference', "all(result[i,j]==(D(t,bumped(y,j,1e-8),i)-D(t,y,i))/1e-8 "
                           "for i in range(len(y)) for j in range(len(y)))")],
                 loops=[LoopSpec(keep + ["f_h.shape[0]==len(y) and f_h.shape[1]==len(y)",
                                         "all(f_h[k,j]==D(t,bumped(y,k,1e-8),j) for k in range(_k) for j in range(len(y)))"])])
    reg.fn('wsum', [('a', TArr(Real, 2)), ('yold', TArr(Real, 2)), ('r', Int), ('j', Int), ('n', Int)], Real,
           "0.0 if n<=0 else wsum(a,yold,r,j,n-1)+a[r,n-1]*yold[n-1,j]", rec=True)
    reg.contract(CM + '.get_g', params=dict(self=S, t=Real, yold=TArr(Real, 2), y=TArr(Real), dt=Real, order=Int, a=TArr(Real, 2), af=TArr(Real)),
                 requires=WF + [('one-value-per-state', 'len(y)==len(self.state_idx)'),
                                ('history-rows', 'order>=1 and order<=yold.shape[0] and yold.shape[1]==len(y) and order<=len(af) '
                                 'and order<=a.shape[0] and order<=a.shape[1]')],
                 modifies=['self.global_vars', 'self.vals'], ret=TTuple(TArr(Real), TArr(Real)),
                 ensures=[('derivatives-returned', "len(result[1])==len(y) and all(result[1][j]==D(t,y,j) for j in range(len(y)))"),
                          ('residual', "len(result[0])==len(y) and all(result[0][j]==y[j]+wsum(a,yold,order-1,j,order)"
                           "-af[order-1]*dt*D(t,y,j) for j in range(len(y)))")],
                 loops=[LoopSpec(keep + ["len(_sum)==len(y)", "all(_sum[j]==wsum(a,yold,order-1,j,_k) for j in range(len(y)))"])])
    # what the solver calls
    I = interface_states(reg, S)
    WI = [(a, x.replace('self.', 'self.model.numba_model.')) for a, x in WF]
    pre = 'self.model.numba_model.'
    reg.contract(SI + 'NumerousEngineModelInterface.get_deriv', params=dict(self=I, t=Real, y=TArr(Real)),
                 requires=WI + [('solver-passes-the-current-states', "len(y)==len({0}state_idx) and all(y[i]=={0}vals[{0}state_idx[i]] "
                                 "for i in range(len(y)))".format(pre))],
                 modifies=[pre + 'global_vars', pre + 'vals'], ret=TArr(Real),
                 ensures=[('derivatives', "len(result)==len(y) and all(result[j]==D(t,y,j) for j in range(len(y)))")])
    for n, args in (('_get_variables', {}), ('_write_variables', dict(value=Real, idx=Int))):
        reg.contract(SI + 'NumerousEngineModelInterface.' + n, params=dict(self=I, **args),
                     requires=[('slot', '0<=idx and idx<len(%svals)' % pre)] if args else [],
                     modifies=[pre + 'vals'] if args else [], ret=None if args else TArr(Real),
                     ensures=[('one-slot', '{0}vals[idx]==value and len({0}vals)==len(old({0}vals)) and all({0}vals[s]==old({0}vals)[s] '
                               'for s in range(len({0}vals)) if s!=idx)'.format(pre))] if args else
                     [('all', 'len(result)==len({0}vals) and all(result[s]=={0}vals[s] for s in range(len({0}vals)))'.format(pre))])

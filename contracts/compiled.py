"""Shared contracts around CompiledModel: the generated kernel and its variable access are assumed contracts
(their own properties are C03-C05)."""
from pyvc.spec import *

CM = 'numerous.engine.model.compiled_model:CompiledModel'
SI = 'numerous.engine.simulation.solver_interface:'


def derivative(v, *a):
    """D(t, y, j): derivative j of the compiled equations at time t and states y"""
    t, y, j = a
    lz = v.as_lazy(y)
    n = iz(lz.shape[0])
    i = v.qvar('yi', z3.IntSort())
    arr = z3.Lambda([i], z3.If(z3.And(0 <= i, i < n), v.scalar(lz.fn(i), Real), z3.RealVal(0)))
    f = z3.Function('derivative', z3.RealSort(), z3.ArraySort(z3.IntSort(), z3.RealSort()), z3.IntSort(), z3.RealSort())
    return mk(Real, f(v.scalar(t, Real), arr, v.scalar(j, Int)))


def cm_type(**more):
    d = dict(vals=TArr(Real), state_idx=TArr(Int), deriv_idx=TArr(Int), global_vars=TArr(Real), init_vars=TArr(Real),
             historian_ix=Int, historian_max_size=Int, historian_data=TArr(Real, 2))
    d.update(more)
    return TObj('CompiledModel', **d)


WF = [('distinct-state-slots', "all(0<=self.state_idx[i] and self.state_idx[i]<len(self.vals) for i in range(len(self.state_idx)))"
       " and all(self.state_idx[i]!=self.state_idx[j] for i in range(len(self.state_idx)) for j in range(i))"),
      ('one-derivative-per-state', "len(self.deriv_idx)==len(self.state_idx)"),
      ('time-slot-exists', "len(self.global_vars)>=1")]


def setup(reg):
    reg.classes['CompiledModel'] = CM
    reg.fn('D', [('t', None), ('y', None), ('j', None)], None, derivative)
    reg.external('CompiledModel.read_variables', names=['self'], returns='snap(self.vals)')
    reg.external('CompiledModel.write_variables', names=['self', 'value', 'idx'],
                 requires=[('slot-in-range', '0<=idx and idx<len(self.vals)')], modifies=['self.vals'],
                 ensures=['len(self.vals)==len(old(self.vals)) and self.vals[idx]==value and '
                          'all(self.vals[s_]==old(self.vals)[s_] for s_ in range(len(self.vals)) if s_!=idx)'])
    reg.external('CompiledModel.compiled_compute', names=['self', 'y'],
                 requires=[('one-value-per-state', 'len(y)==len(self.state_idx)')], modifies=['self.vals'],
                 ret=TArr(Real),
                 ensures=['len(result)==len(self.deriv_idx) and len(self.vals)==len(old(self.vals))',
                          'all(result[d_]==D(self.global_vars[0], y, d_) for d_ in range(len(self.deriv_idx)))',
                          'all(self.vals[self.state_idx[s_]]==y[s_] for s_ in range(len(self.state_idx)))'])


def kernel_states(reg, S):
    reg.contract(CM + '.get_states', params=dict(self=S), requires=WF, ret=TArr(Real),
                 ensures=[('state-i-is-slot-of-state-i', "len(result)==len(self.state_idx) and "
                           "all(result[i]==self.vals[self.state_idx[i]] for i in range(len(self.state_idx)))")])
    reg.contract(CM + '.set_states', params=dict(self=S, states=TArr(Real)),
                 requires=WF + [('not-too-many', 'len(states)<=len(self.state_idx)')], modifies=['self.vals'],
                 ensures=[('every-state-written', "all(self.vals[self.state_idx[i]]==states[i] for i in range(len(states)))"),
                          ('nothing-else-written', "len(self.vals)==len(old(self.vals)) and all(self.vals[s]==old(self.vals)[s] "
                           "for s in range(len(self.vals)) if not any(self.state_idx[i]==s for i in range(len(states))))")],
                 loops=[LoopSpec(["len(self.vals)==len(old(self.vals))",
                                  "all(self.vals[self.state_idx[i]]==states[i] for i in range(_k))",
                                  "all(self.vals[s]==old(self.vals)[s] for s in range(len(self.vals)) "
                                  "if not any(self.state_idx[i]==s for i in range(_k)))"])])


def interface_states(reg, S, **more):
    I = TObj('Interface', model=TObj('NumerousEngineModel', numba_model=S, **more))
    reg.classes['Interface'] = SI + 'NumerousEngineModelInterface'
    WI = [(a, x.replace('self.', 'self.model.numba_model.')) for a, x in WF]
    pre = 'self.model.numba_model.'
    reg.contract(SI + 'NumerousEngineModelInterface.get_states', params=dict(self=I), requires=WI, ret=TArr(Real),
                 ensures=[('states', "len(result)==len({0}state_idx) and all(result[i]=={0}vals[{0}state_idx[i]] "
                           "for i in range(len({0}state_idx)))".format(pre))])
    reg.contract(SI + 'NumerousEngineModelInterface.set_states', params=dict(self=I, states=TArr(Real)),
                 requires=WI + [('as-many-as-states', 'len(states)==len(%sstate_idx)' % pre)], modifies=[pre + 'vals'],
                 ensures=[('reads-back', "all({0}vals[{0}state_idx[i]]==states[i] for i in range(len(states)))".format(pre)),
                          ('nothing-else', "len({0}vals)==len(old({0}vals)) and all({0}vals[s]==old({0}vals)[s] for s in range(len({0}vals)) "
                           "if not any({0}state_idx[i]==s for i in range(len(states))))".format(pre))])
    return I


ASSUME = ['generated kernel: returns one derivative per state, a function of time, states and the values it does not '
          'compute itself, and writes the given states into their slots (its lowering is C03-C05)',
          'read_variables returns the current values, write_variables(v, i) changes slot i only',
          'floating-point arithmetic treated as real arithmetic']

"""Bounded: runs repeated after a reset, and several models in one process, on real simulations."""
from hlib import *
import numpy as np
import random

h = H('random models with 1-4 items, sums, nesting, time dependence, internal and external events, external data, small buffers; second and third runs; '
      'pairs of models built and simulated in every interleaving', 80)
import pandas as pd
import hmodel
from numerous.engine.model import Model
from numerous.engine.simulation import Simulation
from numerous.engine.system.external_mappings import ExternalMappingElement, InterpolationType
from numerous.utils.data_loader import CSVDataLoader, InMemoryDataLoader
from numerous.utils.historian import Historian, InMemoryHistorian


def cond(t, variables):
    return variables['sys.z.n.q'] - 0.35


def act(t, variables):
    variables['sys.z.n.q'] = variables['sys.z.n.q'] - 0.5
    variables['sys.z.n.w'] = variables['sys.z.n.w'] + 1.0


def tact(t, variables):
    variables['sys.z.n.w'] = variables['sys.z.n.w'] * 2.0 + 0.25


def make(seed, size=0, events=True, data=True):
    rng = random.Random(seed)
    sp = hmodel.random_spec(rng, n_items=rng.randint(1, 3), n_methods=rng.randint(1, 4))
    if seed % 2:
        hmodel.several_contributions(rng, sp)
    sp.items['z'] = dict(ns='n', vars=[('q', 'state', 0.1), ('q_dot', 'dot', 0), ('w', 'param', 0.5 + seed % 3), ('ex', 'param', 0.75), ('r', 'param', 0.0)],
                         methods=[('mq', ['scope.q_dot = 1.0 + 0.1 * scope.w', 'scope.r = scope.ex * scope.w + scope.global_vars.t'])])
    if sp.shape:
        sp.shape.append((None, ['z']))
    for it in sp.items.values():      # keep the dynamics tame
        it['methods'] = [(m, [l if not '_dot' in l or l.startswith('scope.q_dot') else l.split(' = ')[0] + ' = np.sin(' + l.split(' = ', 1)[1] + ')' for l in ls])
                         for m, ls in it['methods']]
    kw = {}
    if data and seed % 3 == 0:
        text = sp.text().replace('def __init__(self, tag="sys"):\n        super().__init__(tag)',
                                 'def __init__(self, tag="sys", **kw):\n        super().__init__(tag, **kw)')
        sp.text = lambda: text
        f = os.path.join(os.getcwd(), 'h19_%d_%d.csv' % (os.getpid(), seed))
        pd.DataFrame({'n': 0, 'time': np.arange(0, 1.6, 0.1), 'c': np.arange(16) * 1.5}).to_csv(f)
        kw = dict(external_mappings=[ExternalMappingElement(f, 'time', 0, 1, {'sys.z.n.ex': ('c', rng.choice([InterpolationType.PIESEWISE, InterpolationType.LINEAR]))})],
                  data_loader=rng.choice([CSVDataLoader(chunksize=rng.choice([1, 2, 5])), InMemoryDataLoader(pd.read_csv(f))]))
    m = Model(sp.load().S(**kw), use_llvm=False, historian=Historian(size) if size else InMemoryHistorian())
    kinds = seed % 5 if events else 0
    if kinds in (1, 3, 4):
        m.add_event('e', cond, act, direction=1, is_external=kinds == 4)
    if kinds in (2, 3, 4):
        m.add_timestamp_event('t', tact, timestamps=[0.21, 0.5], is_external=kinds == 4)
    if kinds == 2:
        m.add_timestamp_event('p', tact, periodicity=0.3)
    return sp, m


def table(m):
    d = m.historian_df
    out = {'time': np.array(d['time'])}
    for p in m.logged_aliases:
        out[p] = np.array(d[p])
    return out


def differ(a, b, seed=None):
    # data loaded in chunks interrupt the first run only: equal up to the solver's accuracy
    tol = dict(rtol=1e-6, atol=1e-6) if seed is not None and seed % 3 == 0 else dict(rtol=0, atol=0)
    if a.keys() != b.keys():
        return 'columns %s' % sorted(set(a) ^ set(b))
    for k in a:
        if a[k].shape != b[k].shape:
            return '%s has %d rows, then %d' % (k, len(a[k]), len(b[k]))
        if not np.allclose(a[k], b[k], equal_nan=True, **tol):
            i = [j for j in range(len(a[k])) if not np.allclose(a[k][j], b[k][j], equal_nan=True, **tol)][0]
            return '%s at row %d (t=%r): %r, then %r' % (k, i, a['time'][i], a[k][i], b[k][i])


def run(m, num, **kw):
    s = Simulation(m, t_start=0, t_stop=1.0, num=num, **kw)
    s.solve()
    return s


def again(seed):
    rng = random.Random(seed + 77)
    sp, m = make(seed, size=rng.choice([0, 0, 1, 3]))
    num = rng.randint(3, 12)
    opt = rng.choice([dict(), dict(max_step=0.05), dict(method='Euler', max_step=0.02)]) if seed % 3 else dict(max_step=0.05)
    run(m, num, **opt)
    first = table(m)
    for what in ('second', 'third'):
        run(m, num, **opt)
        d = differ(first, table(m), seed)
        if d:
            return '%s run: %s' % (what, d)


def changed(seed):
    """values changed by hand between the runs"""
    rng = random.Random(seed + 78)
    sp, m = make(seed)
    num = rng.randint(3, 8)
    opt = dict() if seed % 3 else dict(max_step=0.05)
    run(m, num, **opt)
    first = table(m)
    ids = hmodel.ids(m, sp)
    paths = sp.paths()
    m.set_variables({p: rng.uniform(-1, 1) for k, p in paths.items() if rng.random() < 0.5})
    m.update_variables({p: rng.uniform(-1, 1) for k, p in paths.items() if rng.random() < 0.5})
    run(m, num, **opt)
    return differ(first, table(m), seed)


def restored(seed):
    """state right after a reset against the state right after building"""
    rng = random.Random(seed + 79)
    sp, m = make(seed)
    given = {k: v for k, v in hmodel.given_values(sp).items() if k != ('z', 'ex')}
    ids = hmodel.ids(m, sp)
    before = {k: m.var_func()[m.vars_ordered_values[ids[k]]] for k in given}
    s = Simulation(m, t_start=0, t_stop=1.0, num=5)
    s.solve()
    s.reset(0.0)
    for k in given:
        if m.var_func()[m.vars_ordered_values[ids[k]]] != before[k]:
            return '%s holds %r after the reset, %r after building' % (k, m.var_func()[m.vars_ordered_values[ids[k]]], before[k])
        if m.variables[ids[k]].value != before[k]:
            return 'variable %s has value %r after the reset, %r after building' % (k, m.variables[ids[k]].value, before[k])
    nm = m.numba_model
    if m.historian_df is not None or nm.historian_ix != 0 or not np.isnan(nm.historian_data).all():
        return 'history not empty after the reset'
    if nm.historian_data.shape != (len(m.vars_ordered_values) + 1, nm.historian_max_size):
        return 'history buffer has another size after the reset'
    if nm.global_vars[0] != 0.0:
        return 'time is %r after the reset' % nm.global_vars[0]


def pair(seed):
    """two models in one process, interleaved, against each of them alone"""
    rng = random.Random(seed + 80)
    a_, b_ = seed, seed + (0 if rng.random() < 0.25 else rng.randint(1, 9))
    num = rng.randint(3, 8)
    alone = {}
    for n, sd in (('a', a_), ('b', b_)):
        sp, m = make(sd)
        run(m, num, max_step=0.05)
        alone[n] = table(m)
    jobs = {n: ['model', 'sim', 'solve'] + rng.choice([[], ['sim', 'solve'], ['reset']]) for n in 'ab'}
    ms, ss, log = {}, {}, []
    todo = {n: list(j) for n, j in jobs.items()}
    while todo['a'] or todo['b']:
        n = rng.choice([n for n in 'ab' if todo[n]])
        j = todo[n].pop(0)
        log.append(n + ':' + j)
        if j == 'model':
            ms[n] = make(a_ if n == 'a' else b_)[1]
        elif j == 'sim':
            ss[n] = Simulation(ms[n], t_start=0, t_stop=1.0, num=num, max_step=0.05)
        elif j == 'solve':
            ss[n].solve()
        else:
            o = 'b' if n == 'a' else 'a'
            keep = np.array(ms[o].var_func()) if o in ms else None
            kdf = table(ms[o]) if o in ms and ms[o].historian_df is not None else None
            d = differ(alone[n], table(ms[n]), a_ if n == 'a' else b_)
            if d:
                return '%s, model %s: %s' % (' '.join(log), n, d)
            ss[n].reset(0.0)
            if keep is not None and not np.array_equal(keep, ms[o].var_func(), equal_nan=True):
                return '%s: resetting %s changed values of %s' % (' '.join(log), n, o)
            if kdf is not None and (ms[o].historian_df is None or differ(kdf, table(ms[o]))):
                return '%s: resetting %s changed the history of %s' % (' '.join(log), n, o)
            continue
    for n in 'ab':
        if jobs[n][-1] != 'reset':
            d = differ(alone[n], table(ms[n]), a_ if n == 'a' else b_)
            if d:
                return '%s, model %s: %s' % (' '.join(log), n, d)


def same_system(seed):
    """two models of equal systems; one historian each"""
    sp, m = make(seed, events=False)
    sp2, m2 = make(seed, events=False)
    a, b = Model(make(seed)[0].load().S(), use_llvm=False) if seed % 3 else m, Model(sp2.load().S(), use_llvm=False) if seed % 3 else m2
    if seed % 3:
        if a.historian is b.historian:
            a.historian.max_size = 2
            if b.historian.get_historian_max_size(10, 0) == 2:
                return 'the buffer size chosen for one model applies to the other'
    s = Simulation(a, t_start=0, t_stop=1.0, num=4)
    t = Simulation(b, t_start=0, t_stop=1.0, num=4)
    before = np.array(b.var_func())
    a.var_write(123.0, 0)
    s.solve()
    if not np.array_equal(before, b.var_func(), equal_nan=True):
        return 'running one model changed values of the other'


def resume(seed):
    """step by step, reset in between"""
    rng = random.Random(seed + 81)
    sp, m = make(seed, events=False, data=False)
    s = Simulation(m, t_start=0, t_stop=1.0, num=10)
    out = []
    for _ in range(2):
        vals = []
        t = 0.0
        for k in range(4):
            t, _st = s.step_solve(t, 0.1)
            vals.append((t, np.array(m.var_func())))
        out.append(vals)
        s = Simulation(m, t_start=0, t_stop=1.0, num=10)
    for (t, a), (u, b) in zip(*out):
        if t != u or not np.array_equal(a, b, equal_nan=True):
            return 'stepping after a reset: t=%r %s, then t=%r %s' % (t, a, u, b)


def dropped(seed):
    """steps recorded in the buffer, a reset before they reach a table"""
    rng = random.Random(seed + 82)
    sp, m = make(seed, events=False, data=False)
    s = Simulation(m, t_start=0, t_stop=1.0, num=10)
    for k in range(rng.randint(1, 4)):
        s.step_solve(0.1 * k, 0.1)
        m.numba_model.historian_update(0.1 * (k + 1))
    s.reset(0.0)
    nm = m.numba_model
    if m.historian_df is not None or nm.historian_ix != 0 or not np.isnan(nm.historian_data).all():
        return 'after a reset %d recorded rows remain in the buffer' % nm.historian_ix


i = 0
while h.left() and h.n < (600 if THOROUGH else 130):
    for name, fn in (('run-again', again), ('changed-between', changed), ('restored', restored), ('two-models', pair), ('two-of-a-kind', same_system), ('stepwise', resume), ('dropped', dropped)):
        if name in ('two-of-a-kind', 'stepwise', 'dropped') and i % 4:
            continue
        if not h.left():
            break
        sd = SEED * 1000 + i
        h.case(name, lambda f=fn, s=sd: f(s), {'seed': sd})
    i += 1
h.done()

"""Bounded: every sample the solver records, against the history table, on real simulations with small buffers."""
from hlib import *
import numpy as np
import random

h = H('random models, 3-25 evaluation points, buffers of 1-8 samples and the default size, with and without internal and '
      'external state and time events, variables holding not-a-number', 75)
import pandas as pd
import hmodel
from numerous.engine.model import Model
from numerous.engine.system.external_mappings import ExternalMappingElement, InterpolationType
from numerous.utils.data_loader import CSVDataLoader
from numerous.engine.simulation import Simulation
from numerous.utils.historian import Historian, InMemoryHistorian

cur = {}


def cond(t, variables):
    return variables['sys.z.n.q'] - 0.35


def act(t, variables):
    variables['sys.z.n.q'] = variables['sys.z.n.q'] - 0.5
    variables['sys.z.n.w'] = variables['sys.z.n.w'] + 1.0


def cond2(t, variables):
    return variables['sys.z.n.q'] - 0.345


def act2(t, variables):
    variables['sys.z.n.w'] = variables['sys.z.n.w'] + 2.0


def tact(t, variables):
    variables['sys.z.n.w'] = variables['sys.z.n.w'] + 0.25


def case(seed):
    rng = random.Random(seed)
    sp = hmodel.random_spec(rng, n_items=rng.randint(1, 3), n_methods=rng.randint(1, 3), nest=False)
    sp.items['z'] = dict(ns='n', vars=[('q', 'state', 0.1), ('q_dot', 'dot', 0), ('w', 'param', 0.0), ('ex', 'param', 0.0),
                                       ('v', 'param', float('nan') if seed % 3 == 0 else 1.0)],
                         methods=[('mq', ['scope.q_dot = 1.0'])])
    for it in sp.items.values():      # keep the dynamics tame
        it['methods'] = [(m, ls if not any('_dot' in l for l in ls) else
                          [l if l.startswith('scope.q_dot') else l.split(' = ')[0] + ' = np.sin(' + l.split(' = ', 1)[1] + ')' for l in ls])
                         for m, ls in it['methods']]
    text = sp.text().replace("float('nan')", 'nan').replace(', nan', ", float('nan')")
    size = rng.choice([0, 0, 1, 1, 2, 3, 5, 8])
    kw = {}
    if seed % 4 == 2:
        text = text.replace('def __init__(self, tag="sys"):\n        super().__init__(tag)',
                            'def __init__(self, tag="sys", **kw):\n        super().__init__(tag, **kw)')
        f = os.path.join(os.getcwd(), 'h07_%d_%d.csv' % (os.getpid(), seed))
        pd.DataFrame({'n': 0, 'time': np.arange(0, 1.3, 0.1), 'c': np.arange(13) * 1.5}).to_csv(f)
        kw = dict(external_mappings=[ExternalMappingElement(f, 'time', 0, 1, {'sys.z.n.ex': ('c', InterpolationType.PIESEWISE)})],
                  data_loader=CSVDataLoader(chunksize=rng.choice([1, 2, 3])))
    sp.text = lambda: text
    m = Model(sp.load().S(**kw), use_llvm=False, historian=Historian(size) if size else InMemoryHistorian())
    kinds = seed % 5
    if kinds in (1, 3, 4):
        m.add_event('e', cond, act, direction=1, is_external=kinds == 4)
        if seed % 2:
            m.add_event('e2', cond2, act2, direction=1, is_external=kinds == 4)
    if kinds in (2, 3, 4):
        m.add_timestamp_event('t', tact, timestamps=[0.21, 0.5], is_external=kinds == 4)
    if kinds == 2:
        m.add_timestamp_event('p', tact, periodicity=0.3)
    num = rng.randint(3, 25)
    s = Simulation(m, t_start=0, t_stop=1.0, num=num)
    nm = m.numba_model
    need(nm, 'historian_update', 'historian_data', 'historian_ix')
    log = []
    real = type(nm).historian_update
    flush = type(m).create_historian_df
    bad = []

    def spy(self, time):
        log.append((float(time), np.array(self.read_variables()).copy()))
        if self.historian_ix >= self.historian_data.shape[1]:
            bad.append('buffer of %d written beyond its end at t=%r' % (self.historian_data.shape[1], time))
        return real(self, time)
    type(nm).historian_update = spy
    try:
        s.solve()
    finally:
        type(nm).historian_update = real
    if bad:
        return bad[0]
    df = m.historian_df
    tt = [float(x) for x in df['time']]
    if tt != [t for t, _ in log]:
        return 'buffer %d events %d: recorded times %r, table has %r' % (size, kinds, [t for t, _ in log][:30], tt[:30])
    for p, vid in m.aliases.items():
        if p.endswith('_dot') or vid not in m.vars_ordered_values:
            pass
        col = np.array(df[p], float)
        want = np.array([v[m.vars_ordered_values[vid]] for _, v in log])
        if not np.array_equal(col, want, equal_nan=True):
            return 'buffer %d events %d: column %s differs from the recorded values' % (size, kinds, p)
    n_eval = len(set(np.linspace(0, 1.0, num + 1)[1:]))
    seen = sum(1 for x in np.linspace(0, 1.0, num + 1)[1:] if any(abs(x - t) < 1e-9 for t in tt))
    if seen != n_eval:
        return 'only %d of %d evaluation points in the table' % (seen, n_eval)


for seed in range(150 if not THOROUGH else 3000):
    if not h.left():
        break
    h.case('history', lambda: case(SEED * 100000 + seed), {'seed': SEED * 100000 + seed})
h.done()

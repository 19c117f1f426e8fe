"""Bounded: externally driven variables against an independent reading of the data, on real models and simulations."""
from hlib import *
import numpy as np
import pandas as pd
import random
import itertools

h = H('1-3 tables of 1-12 rows and 1-3 columns, linear and piecewise, time multipliers, in memory and csv in chunks of 1-20 rows, '
      'random sequences of times, overwritten variables, resets; short simulations', 80)
import hmodel
from numerous.engine.simulation import Simulation
from numerous.engine.model import Model
from numerous.engine.system import ItemsStructure
from numerous.engine.system.external_mappings import ExternalMappingElement, InterpolationType
from numerous.utils.data_loader import InMemoryDataLoader, CSVDataLoader

LIN, PW = InterpolationType.LINEAR, InterpolationType.PIESEWISE
_n = itertools.count()


def want(times, vals, kind, t):
    """acceptable values at t"""
    out = []
    for tt in (t, t - 1e-9, t + 1e-9):
        if kind is LIN:
            out.append(float(np.interp(tt, times, vals)))
        else:
            k = int(np.searchsorted(times, tt, side='right')) - 1
            out.append(float(vals[max(k, 0)]))
    return out


def ok(x, ws):
    return any(abs(x - w) <= 1e-9 * (1 + abs(w)) for w in ws) or (min(ws) <= x <= max(ws))


class Multi:
    """one in-memory frame per id"""

    def __init__(self, frames):
        self.frames = frames

    def load(self, df_id, t):
        return self.frames[df_id].copy()


def make(rng, tables=None, same_range=True, use_csv=False, chunk=None, rows=None, tmax=2.0, extra_sys=None):
    sp = hmodel.random_spec(rng, n_items=rng.randint(1, 3), n_methods=rng.randint(1, 3), nest=False)
    for it in sp.items.values():      # keep the dynamics tame
        it['methods'] = [(m, ls if not any('_dot' in l for l in ls) else
                          [l.split(' = ')[0] + ' = np.sin(' + l.split(' = ', 1)[1] + ')' for l in ls]) for m, ls in it['methods']]
    ext = []
    nt = tables or rng.randint(1, 3)
    for k in range(nt * rng.randint(1, 3) + 1):
        nm = 'ex%d' % next(_n)
        t = rng.choice(list(sp.items))
        sp.items[t]['vars'].append((nm, 'param', round(rng.uniform(-1, 1), 2)))
        ext.append((t, nm))
    free = ext.pop()
    nrow = rows or rng.randint(1, 12)
    t0 = 0.0
    times = [np.concatenate([[t0], np.sort(np.array(rng.sample(range(1, 400), nrow - 1)) / 200.0 * tmax / 2.0)]) for _ in range(nt)]
    if same_range:
        for q in times[1:]:
            q[-1] = times[0][-1] if nrow > 1 else t0
            q.sort()
    times = [np.unique(q) for q in times]
    n = min(len(q) for q in times)
    times = [np.concatenate([q[:n - 1], q[-1:]]) if n > 1 else q[:1] for q in times]
    paths = sp.paths()
    el, frames, where = [], {}, {}
    rng.shuffle(ext)
    groups = [[] for _ in range(nt)]
    for i, v in enumerate(ext):
        groups[i % nt].append(v)
    width = max(len(g) for g in groups)
    for d in range(nt):
        mult = rng.choice([1, 1, 2, 0.5])
        data = {'time': times[d] / mult}
        al = {}
        for j in range(width):
            col = 'col%d' % j
            vals = np.array([rng.choice([0.0, 0.0, 1.0, -2.5, round(rng.uniform(-3, 3), 2)]) for _ in times[d]])
            data[col] = vals
        cols = list(data)
        rng.shuffle(cols)
        frames['t%d' % d] = pd.DataFrame({c: data[c] for c in cols})
        js = list(range(width))
        rng.shuffle(js)
        for i, j in enumerate(js):
            kind = rng.choice([LIN, PW])
            if True:
                al[paths[groups[d][i]]] = ('col%d' % j, kind)
                where[groups[d][i]] = (times[d], np.array(data['col%d' % j]), kind)
        el.append(['t%d' % d, mult, al])
    if use_csv:
        loader = None
        import os
        for d in range(nt):
            p = os.path.join(os.getcwd(), 'h08_%d_%d.csv' % (os.getpid(), next(_n)))
            frames['t%d' % d].to_csv(p, index=rng.random() < 0.5)
            el[d][0] = p
        loader = CSVDataLoader(chunksize=chunk or rng.choice([1, 2, 3, 5, 20]))
    elif nt == 1:
        loader = InMemoryDataLoader(frames['t0'].copy())
    else:
        loader = Multi(frames)
    elements = [ExternalMappingElement(i, 'time', 0, m, a) for i, m, a in el]
    text = sp.text().replace("def __init__(self, tag=\"sys\"):\n        super().__init__(tag)",
                             "def __init__(self, tag=\"sys\", **kw):\n        super().__init__(tag, **kw)")
    sp.text = lambda: text
    mod = sp.load()
    m = Model(mod.S(external_mappings=elements, data_loader=loader), use_llvm=False)
    return sp, m, where, free, times, loader, elements


def calls(seed):
    rng = random.Random(seed)
    sp, m, where, free, times, loader, _ = make(rng)
    m._generate_compiled_model(0.0, 10)
    nm = m.numba_model
    need(nm, 'map_external_data', 'read_variables', 'write_variables')
    ids = hmodel.ids(m, sp)
    slot = {k: m.vars_ordered_values[i] for k, i in ids.items() if i in m.vars_ordered_values}
    untouched = [k for k in slot if k not in where and k in hmodel.given_values(sp)]
    hi = max(q[-1] for q in times)
    pts = sorted({float(x) for q in times for x in q})
    t = None
    for step in range(rng.randint(3, 12)):
        if rng.random() < 0.35:
            for k in rng.sample(sorted(where), rng.randint(1, len(where))):
                nm.write_variables(rng.choice([0.0, 7.5]), slot[k])
        r = rng.random()
        if r < 0.3 and t is not None:
            pass
        elif r < 0.6:
            t = rng.choice(pts)
        else:
            t = rng.uniform(0, hi * 1.1)
        before = np.array(nm.read_variables()).copy()
        nm.map_external_data(t)
        vals = np.array(nm.read_variables())
        for k, (tt, vv, kind) in where.items():
            ws = want(tt, vv, kind, t)
            if not ok(vals[slot[k]], ws):
                return '%s (%s) at t=%r is %r, its column says %r' % ('.'.join(k), kind.name, t, vals[slot[k]], ws[0])
        for k in untouched:
            if vals[slot[k]] != before[slot[k]]:
                return 'unmapped %s changed from %r to %r' % ('.'.join(k), before[slot[k]], vals[slot[k]])
        lo, up = nm.min_external_t, nm.max_external_t
        if (lo, up) != (times[0][0], times[0][-1]) and abs(lo - times[0][0]) + abs(up - times[0][-1]) > 1e-9:
            return 'loaded range %r, data %r' % ((lo, up), (times[0][0], times[0][-1]))
        for x in (lo, up, t, up + 1, lo - 1, (lo + up) / 2):
            if bool(nm.is_external_data_update_needed(x)) != (x > up or x < lo):
                return 'update needed at %r with %r loaded: %r' % (x, (lo, up), nm.is_external_data_update_needed(x))


def sim(seed, use_csv):
    rng = random.Random(seed)
    sp, m, where, free, times, loader, els = make(rng, tables=1 if use_csv else None, use_csv=use_csv, rows=rng.randint(2, 12), tmax=2.0)
    hi = min(q[-1] for q in times)
    stop = max(hi * 0.98, 0.001)
    s = Simulation(m, t_start=0, t_stop=stop, num=rng.randint(3, 12), max_step=stop / 7)
    paths = sp.paths()
    for run in range(2):
        s.solve()
        df = m.historian_df
        tt = np.array(df['time'], float)
        if len(tt) < 2:
            return 'no history in run %d' % run
        for k, (xs, vs, kind) in where.items():
            col = np.array(df[paths[k]], float)
            for t, x in zip(tt, col):
                if not ok(x, want(xs, vs, kind, t)):
                    return 'run %d: recorded %s (%s) at t=%r is %r, its column says %r' % (
                        run, paths[k], kind.name, t, x, want(xs, vs, kind, t)[0])
        if run == 0:
            s.reset(0.0)
            vals = np.array(m.numba_model.read_variables())
            ids = hmodel.ids(m, sp)
            for k, (xs, vs, kind) in where.items():
                x = vals[m.vars_ordered_values[ids[k]]]
                if not ok(x, want(xs, vs, kind, 0.0)):
                    return 'after reset to 0: %s is %r, its column says %r' % (paths[k], x, want(xs, vs, kind, 0.0)[0])


for seed in range(400 if not THOROUGH else 6000):
    if h.t0 + h.budget * 0.45 < time.time():
        break
    h.case('values', lambda: calls(SEED * 100000 + seed), {'seed': SEED * 100000 + seed})
for seed in range(80 if not THOROUGH else 1500):
    if not h.left():
        break
    h.case('simulation', lambda: sim(SEED * 100000 + seed, False), {'seed': SEED * 100000 + seed})
    h.case('simulation-in-chunks', lambda: sim(SEED * 100000 + seed, True), {'seed': SEED * 100000 + seed})
h.done()

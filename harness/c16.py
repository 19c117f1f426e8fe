"""Bounded: names, aliases, log levels and recorded columns of real models over short simulations."""
from hlib import *
import numpy as np

h = H('random models of 1-4 items (possibly nested), random log levels and aliases (declared or set on the variable), every model log level; '
      'short simulations and directly filled histories; refused name collisions', 60)
import hmodel
from numerous.engine.model import Model
from numerous.engine.system import Item, Subsystem
from numerous.engine.variables import VariableDescription
from numerous.multiphysics import EquationBase, Equation
from numerous.utils.logger_levels import LoggerLevel
from numerous.engine.model.aliased_dataframe import AliasedDataFrame

LV = ['ALL', 'DEBUG', 'INFO']


def case(seed):
    rng = random.Random(seed)
    sp = hmodel.random_spec(rng, n_items=rng.randint(1, 4), n_methods=rng.randint(1, 3), use_t=False)
    if seed % 3 == 0:
        hmodel.several_contributions(rng, sp)
    for t, it in sp.items.items():
        for n, k, i in it['vars']:
            if k != 'dot' and rng.random() < 0.6:
                sp.levels[t, n] = rng.choice(LV)
            if k != 'dot' and rng.random() < 0.3:
                sp.aliases[t, n] = '%s_%s' % (t, n) if rng.random() < 0.7 else 'v.%s.%s' % (n, t)
    mod = sp.load()
    s = mod.S()
    later = {}
    level = rng.choice(LV)
    m = Model(s, use_llvm=False, logger_level=getattr(LoggerLevel, level))
    need(m, 'aliases', 'vars_ordered_values', 'logged_variables', 'create_historian_dict', '_generate_history_df')
    path = sp.paths()
    lev, names = {}, {}
    for t, it in sp.items.items():
        for n, k, i in it['vars']:
            base = n[:-4] if k == 'dot' else n
            lev[t, n] = LV.index(sp.levels.get((t, base), 'ALL'))
            names[t, n] = [path[t, n]]
            if (t, base) in sp.aliases:
                names[t, n].append(sp.aliases[t, base] + ('_dot' if k == 'dot' else ''))
    want = {x: k for k, v in names.items() for x in v}
    if set(m.aliases) != set(want):
        return 'names %r, expected %r' % (sorted(set(m.aliases) ^ set(want)), sorted(want))
    I = hmodel.ids(m, sp)
    for x, k in want.items():
        if m.aliases[x] != I[k]:
            return 'name %r leads to another variable' % x
    nv = len(m.vars_ordered_values)
    data = np.array([[100.0 * r + c for c in range(7)] for r in range(nv + 1)])
    df = m._generate_history_df(data)
    r = columns(df, m, names, lev, LV.index(level), I, data)
    if r:
        return r
    # a real run
    from numerous.engine.simulation import Simulation
    sim = Simulation(m, t_start=0, t_stop=0.2, num=rng.randint(2, 5), max_step=0.1)
    rec = []
    nm = m.numba_model
    # the recorded buffer itself is what the table has to show
    sim.solve()
    df = m.historian_df
    full = m.numba_model.historian_data
    ok = ~np.isnan(full[0])
    if len(df['time']) < 2:
        return 'no samples'
    if int(ok.sum()) == len(df['time']):
        return columns(df, m, names, lev, LV.index(level), I, full[:, ok])


def columns(df, m, names, lev, level, I, data):
    if list(df['time']) != list(data[0]):
        return 'time column %r' % (list(df['time']),)
    cols = set(df.df.columns)
    for k, xs in names.items():
        row = list(data[m.vars_ordered_values[I[k]] + 1])
        for x in xs:
            if lev[k] >= level:
                if list(df[x]) != row:
                    return '%r shows %r, its own values are %r' % (x, list(df[x])[:5], row[:5])
                if list(df.get(x)) != row:
                    return 'get %r' % x
            else:
                if df.get(x) is not None or x in cols or I[k] in cols:
                    return '%r is below the level but recorded' % x
                try:
                    df[x]
                    return '%r is below the level but can be read' % x
                except KeyError:
                    pass
    logged = [x for k, xs in names.items() for x in xs if lev[k] >= level]
    if len(cols) != 1 + sum(1 for k in names if lev[k] >= level):
        return 'columns %r' % (sorted(cols),)
    rng = random.Random(len(logged))
    for _ in range(5):
        pick = [rng.choice(logged + ['time']) for _ in range(rng.randint(1, 4))] if logged else ['time']
        t = df[pick]
        g = df.get(pick)
        own = {x: k for k, xs in names.items() for x in xs}
        for j, x in enumerate(pick):
            row = list(data[m.vars_ordered_values[I[own[x]]] + 1]) if x != 'time' else list(data[0])
            for what, q in (('[]', t), ('get', g)):
                if list(q.columns) != pick or list(q.iloc[:, j]) != row:
                    return '%s %r: column %d (%r) is %r' % (what, pick, j, list(q.columns), list(q.iloc[:, j])[:4])


for seed in range(120 if not THOROUGH else 3000):
    if not h.left():
        break
    s_ = SEED * 100000 + seed
    h.case('columns', lambda: case(s_), {'model_seed': s_})


# ---- collisions
class E(EquationBase):
    def __init__(self, a, b):
        super().__init__('e')
        self.add_state('x', 1.0, alias=a)
        self.add_parameter('y', 2.0, alias=b)

    @Equation()
    def f(self, scope):
        scope.x_dot = -scope.y * scope.x


class I(Item):
    def __init__(self, tag, a=None, b=None):
        super().__init__(tag)
        self.create_namespace('n').add_equations([E(a, b)])


def clash(specs, ok):
    s = Subsystem('s')
    for tag, a, b in specs:
        s.register_item(I(tag, a, b))
    try:
        m = Model(s, use_llvm=False)
    except ValueError:
        return 'refused' if ok else None
    if not ok:
        return 'accepted: %r' % (sorted(m.aliases),)


for specs, ok in [([('a', None, None), ('b', None, None)], True), ([('a', 'p', 'q'), ('b', 'r', 's')], True), ([('a', 'p', None), ('b', 'p', None)], False),
                  ([('a', 'p', 'p')], False), ([('a', 'p', 'p_dot')], False), ([('a', 'time', None)], False), ([('a', None, 'time')], False),
                  ([('a', None, 's.b.n.x'), ('b', None, None)], False), ([('a', None, None), ('b', None, 's.a.n.y')], False), ([('a', 's.a.n.x', None)], True)]:
    h.case('collision', lambda: clash(specs, ok), specs)


def alias_set_later():
    s = Subsystem('s')
    i = I('a')
    s.register_item(i)
    i.n.x.alias = 'short'
    m = Model(s, use_llvm=False)
    return m.aliases.get('short') == m.aliases['s.a.n.x'] or 'alias set on the variable is unknown'


h.case('alias-later', alias_set_later)
h.done()

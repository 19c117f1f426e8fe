"""Bounded: which variables external tables drive, with confusable names, several tables and nested systems."""
from hlib import *
import numpy as np
import pandas as pd
import random
import itertools
import types

h = H('1-4 tables of 1-5 columns over systems whose item, namespace and variable names are parts of each other, nested one level, '
      'both interpolations, also declared by the nested system, with leading rows left out, scaled times, a column for several variables, '
      'also replaced on a built model, with and without tables of its own; every column holds its own values', 60)
from hlib import numba_stub
numba_stub()
from numerous.engine.model import Model
from numerous.engine.system import Item, Subsystem
from numerous.engine.system.external_mappings import ExternalMappingElement, InterpolationType
from numerous.multiphysics import EquationBase, Equation
LIN, PW = InterpolationType.LINEAR, InterpolationType.PIESEWISE


class Multi:
    def __init__(self, frames):
        self.frames = frames

    def load(self, df_id, t):
        return self.frames[df_id].copy()


class Eq(EquationBase):
    def __init__(self, names):
        super().__init__(tag='eq')
        for k, n in enumerate(names):
            self.add_parameter(n, 0.125 + k)
        self.add_state('S', 1.0)

    @Equation()
    def f(self, scope):
        scope.S_dot = -scope.S


class It(Item):
    def __init__(self, tag, ns, names):
        super().__init__(tag)
        n = self.create_namespace(ns)
        n.add_equations([Eq(names)])


class Sub(Subsystem):
    def __init__(self, tag, items, **kw):
        super().__init__(tag, **kw)
        self.register_items(items)


def tables(rng, paths, tag, w=None, rows=None):
    """random association of a subset of paths with tables and columns"""
    rows = rows or rng.randint(2, 4)
    off = 50000.0 if tag == 'O' else 0.0
    chosen = rng.sample(paths, rng.randint(w or 1, len(paths)))
    nt = rng.randint(1, 4)
    if len(chosen) < nt:
        nt = len(chosen)
    if w:
        nt = len(chosen) // w
    else:
        w = len(chosen) // nt
    chosen = chosen[:nt * w]
    frames, els, exp = {}, [], {}
    v = itertools.count(1)
    for d in range(nt):
        cols = ['time'] + ['c%d' % j for j in range(w)]
        start, mult = rng.choice([0, 0, 1, 2]), rng.choice([1, 1, 2, 0.5])
        data = {'time': [x / mult for x in [-8.0, -4.0][:start] + [0.0, 2.0, 4.0, 6.0][:rows]]}
        for c in cols[1:]:
            data[c] = [-100.0 * next(v) for _ in range(start)] + [off + 100.0 * next(v) + 7 * i for i in range(rows)]
        rng.shuffle(cols)
        fid = '%s%d' % (tag, d)
        frames[fid] = pd.DataFrame({c: data[c] for c in cols})
        js = list(range(w))
        rng.shuffle(js)
        if rng.random() < .3:
            js = rng.choices(js, k=w)
        al = {}
        for p, j in zip(chosen[d * w:(d + 1) * w], js):
            k = rng.choice([LIN, PW])
            al[p] = ('c%d' % j, k)
            a, b = data['c%d' % j][start:start + 2]
            exp[p] = (a + b) / 2 if k is LIN else a
        els.append(ExternalMappingElement(fid, 'time', start, mult, al))
    return frames, els, exp


def check(m, exp, all_paths, t=1.0):
    nm = m.numba_model
    for p in all_paths:
        vid = m.aliases[p]
        if vid in m.vars_ordered_values:
            nm.write_variables(-1.0, m.vars_ordered_values[vid])
    nm.map_external_data(t)
    vals = nm.read_variables()
    for p in all_paths:
        x = vals[m.vars_ordered_values[m.aliases[p]]]
        if x != exp.get(p, -1.0):
            return '%s is %r; %s' % (p, x, 'its column gives %r' % exp[p] if p in exp else 'no column names it')


def case(seed):
    rng = random.Random(seed)
    pool = rng.choice([['T', 'T1', 'T11', 'T2'], ['x', 'xx', 'x_', '_x'], ['a', 'b', 'ab', 'ba']])
    itags = rng.choice([['b', 'b1', 'b11'], ['i', 'ii', 'ni'], ['p', 'q', 'pq']])
    ns = rng.choice([['n', 'n', 'n'], ['n', 'n1', 'nn'], ['b', 'i', 'p']])
    items, paths, k = [], [], rng.randint(1, 3)
    inner = []
    for i in range(k):
        names = rng.sample(pool, rng.randint(1, len(pool)))
        it = It(itags[i], ns[i], names)
        if rng.random() < 0.4:
            inner.append((it, [itags[i], ns[i]], names))
        else:
            items.append(it)
            paths += ['.'.join(['sys', itags[i], ns[i], n]) for n in names]
    ipaths = []
    if inner:
        tag = rng.choice(['b', 'in', 'sys']) if not items else rng.choice(['in', 'sys'])
        for it, pre, names in inner:
            ipaths += ['.'.join(['sys', tag] + pre + [n]) for n in names]
    allp = paths + ipaths
    f1, e1, x1 = tables(rng, allp, 'A')
    ld = Multi(f1)
    if inner:
        e2 = [e for e in e1 if rng.random() < .4]       # the nested system declares some of the tables
        kw = dict(external_mappings=e2, data_loader=Multi(f1)) if e2 else {}
        items.append(Sub(tag, [i for i, _, _ in inner], **kw))
        e1 = [e for e in e1 if e not in e2]
    m = Model(Sub('sys', items, external_mappings=e1, data_loader=ld), use_llvm=False)
    m._generate_compiled_model(0.0, 10)
    r = check(m, x1, allp)
    if r:
        return 'tables %r: %s' % ([e.dataframe_aliases for e in e1], r)


def replaced(seed):
    rng = random.Random(seed)
    names = ['T', 'T1', 'T11', 'T2']
    allp = ['sys.%s.n.%s' % (b, n) for b in ('b', 'b1') for n in names]
    own, w, rows, kw, x0 = [], None, None, {}, {}
    if rng.random() < .5:
        w, rows = rng.randint(1, 3), rng.randint(2, 4)
        own = rng.sample(allp, rng.randint(w, 4))
        f0, e0, x0 = tables(rng, own, 'O', w, rows)
        if e0:
            kw = dict(external_mappings=e0, data_loader=Multi(f0))
    m = Model(Sub('sys', [It('b', 'n', names), It('b1', 'n', names)], **kw), use_llvm=False)
    m._generate_compiled_model(0.0, 10)
    need(m, 'set_external_mappings')
    for rnd in range(2):
        f, e, x = tables(rng, [p for p in allp if p not in own], 'R%d' % rnd, w, rows)
        x.update(x0)
        m.set_external_mappings(e, Multi(f))
        r = check(m, x, allp)
        if r:
            return 'set_external_mappings, round %d: %s' % (rnd, r)


def unknown():
    for bad in ('sys.b.n.Tx', 'sys.b.n', 'sys.b.T'):
        f = {'A': pd.DataFrame({'time': [0.0, 1.0], 'c': [1.0, 2.0]})}
        try:
            Model(Sub('sys', [It('b', 'n', ['T'])], external_mappings=[ExternalMappingElement('A', 'time', 0, 1, {bad: ('c', LIN)})],
                      data_loader=Multi(f)), use_llvm=False)
        except Exception:
            continue
        return 'column for %r accepted' % bad


for seed in range(900 if not THOROUGH else 4000):
    if not h.left():
        break
    h.case('association', lambda: case(SEED * 100000 + seed), {'seed': SEED * 100000 + seed})
    if seed % 5 == 0:
        h.case('association-replaced', lambda: replaced(SEED * 100000 + seed), {'seed': SEED * 100000 + seed})
h.case('unknown-column-name', unknown, 'names of nothing')
h.done()

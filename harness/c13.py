"""Bounded: random mapping graphs built through namespaces, read back against a reference evaluation; refused assignments."""
from hlib import *
import numpy as np
import fractions

h = H('random acyclic graphs of up to 12 variables in 1-4 items (mappings, sums, a variable among its own summands, shared summands, '
      're-assignments, assignments through a held variable), 30 kinds of refused and accepted values, also on a built model', 40)
numba_stub()
from numerous.engine.system import Item, Subsystem
from numerous.engine.variables import Variable, VariableDescription
from numerous.multiphysics import EquationBase, Equation
from numerous.engine.model import Model


def graph(rng):
    items = []
    for i in range(rng.randint(1, 4)):
        it = Item('i%d' % i)
        for n in rng.sample(['a', 'b', 'ab'], rng.randint(1, 2)):
            it.create_namespace(n)
        items.append(it)
    V = []
    for it in items:
        for ns in it.registered_namespaces:
            for n in rng.sample(['x', 'y', 'z', 'w'], rng.randint(1, 3)):
                val = rng.choice([0.0, 1.0, -2.5, 3, 7.25, 1e6, -0.0])
                ns.create_variable_from_desc(VariableDescription(tag=n, initial_value=val))
                V.append((ns, n))
    return items, V


def play(seed):
    rng = random.Random(seed)
    items, V = graph(rng)
    ref = {}            # i -> [mapping or None, sums, own]
    var = [ns[n] for ns, n in V]
    for i, v in enumerate(var):
        ref[i] = [None, [], v.value]

    def value(i, own=()):
        m, s, o = ref[i]
        if m is not None:
            return value(m)
        if s:
            return sum(o if j == i else value(j) for j in s)
        return o
    order = list(range(len(V)))
    rng.shuffle(order)
    log = []
    for step in range(rng.randint(1, 14)):
        a, b = rng.sample(range(len(V)), 2) if len(V) > 1 else (0, 0)
        if order.index(a) > order.index(b):
            a, b = b, a                     # edges go from earlier to later: no cycles
        ns, n = V[a]
        kind = rng.choice(['map', 'sum', 'held', 'selfmap', 'selfsum', 'value', 'bad'])
        log.append((kind, '%s.%s' % (ns.tag, n), a, b))
        if kind == 'map' and a != b:
            setattr(ns, n, var[b])
            ref[a][0] = b
        elif kind in ('sum', 'held') and a != b or kind == 'selfsum':
            if kind == 'selfsum':
                b = a
            before = list(var[a].sum_mapping)
            try:
                if kind == 'held':
                    v = var[a]
                    v += var[b]
                else:
                    x = getattr(ns, n)
                    x += var[b]
                    setattr(ns, n, x)
                if ref[a][0] is not None:
                    return 'a sum was added to the mapped variable %d after %s' % (a, log)
                ref[a][1].append(b)
            except ValueError:
                if ref[a][0] is None:
                    return 'a sum on the unmapped variable %d was refused after %s' % (a, log)
                if var[a].sum_mapping != before:
                    return 'a refused sum was recorded after %s' % log
        elif kind == 'selfmap':
            try:
                setattr(ns, n, var[a])
            except RecursionError:
                pass
            if var[a].mapping is var[a]:
                return 'variable mapped to itself after %s' % log
        elif kind == 'value':
            x = rng.choice([1, 2.5, np.float64(3.5), np.int64(-4), True, fractions.Fraction(1, 2), np.float32(0.25)])
            var[a].value = x
            ref[a][2] = x
        elif kind == 'bad':
            x = rng.choice(['abc', '3', '', ' 1.5 ', None, [1.0], {}, object(), (1,), np.array([1.0, 2.0]), 1j, b'2', 'nan'])
            try:
                var[a].value = x
                return 'value %r was accepted' % (x,)
            except ValueError:
                pass
            if var[a].value is not ref[a][2] and not var[a].value == ref[a][2]:
                return 'value is %r after refusing %r' % (var[a].value, x)
        for i, v in enumerate(var):
            want = value(i)
            got = v.get_value()
            if abs(float(got) - float(want)) > 1e-9 * max(1, abs(float(want))):
                return 'variable %d reads %r, its sources give %r; %s' % (i, got, want, log)
            m = ref[i][0]
            if (v.mapping is not (None if m is None else var[m])) or [var.index(x) for x in v.sum_mapping] != ref[i][1]:
                return 'variable %d records other sources after %s' % (i, log)
            if V[i][0][V[i][1]] is not v:
                return 'entry %s does not hold its variable after %s' % (V[i][1], log)


class EqP(EquationBase):
    def __init__(self):
        super().__init__(tag='eqp')
        self.add_parameter('p', 2.0)
        self.add_parameter('q', 3.0)
        self.add_state('S', 1.0)

    @Equation()
    def f(self, scope):
        scope.S_dot = -scope.p * scope.S


class It(Item):
    def __init__(self, tag):
        super().__init__(tag)
        self.create_namespace('t').add_equations([EqP()])


class Sys(Subsystem):
    def __init__(self):
        super().__init__('sys')
        self.register_items([It('a'), It('b')])


def built():
    m = Model(Sys(), use_llvm=False)
    m._generate_compiled_model(0.0, 10)
    need(m, 'path_to_variable')
    m.generate_path_to_varaible() if not m.path_to_variable else None
    P = {n: v for n, v in m.path_to_variable.items() if v.llvm_idx is not None}
    names = [n for i, n in enumerate(P) if P[n] not in [P[k] for k in list(P)[:i]]]
    for k, n in enumerate(names):
        P[n].value = 10.0 + k
    live = np.array(m.numba_model.read_variables(), float)
    for k, n in enumerate(names):
        if live[P[n].llvm_idx] != 10.0 + k:
            return 'value assigned to %s did not reach its slot' % n
    for x in ['7', 'abc', None, [1], b'3', '']:
        for n in names:
            before = np.array(m.numba_model.read_variables(), float).copy()
            try:
                P[n].value = x
                return '%r was accepted for %s' % (x, n)
            except ValueError:
                pass
            if P[n].value != 10.0 + names.index(n):
                return '%s is %r after refusing %r' % (n, P[n].value, x)
            if list(before) != list(np.array(m.numba_model.read_variables(), float)):
                return 'slot of %s changed by a refused value' % n


for k in range(100000):
    if not h.left() or k >= (1500 if not THOROUGH else 100000):
        break
    h.case('read-through', lambda: play(SEED * 100003 + k), 'seed %d' % (SEED * 100003 + k))
h.case('refused-on-a-built-model', built, 'all variables of two items')
h.done()

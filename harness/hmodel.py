"""Random small models written to a scratch module, with an independent evaluation of what they mean."""
import importlib.util
import itertools
import os
import sys

from hlib import numba_stub

numba_stub()
HEAD = '''import numpy as np
from numerous.engine.system import Item, Subsystem, ItemsStructure
from numerous.multiphysics import EquationBase, Equation
from numerous.utils.logger_levels import LoggerLevel

'''
_n = itertools.count()


def load_text(text):
    name = 'gen_model_%d_%d' % (os.getpid(), next(_n))
    p = os.path.join(os.getcwd(), name + '.py')
    with open(p, 'w') as f:
        f.write(text)
    sp = importlib.util.spec_from_file_location(name, p)
    mod = importlib.util.module_from_spec(sp)
    sys.modules[name] = mod
    sp.loader.exec_module(mod)
    return mod


class Spec:
    """items: tag -> dict(ns, vars=[(name, kind, init)], methods=[(name, [lines])]); order: methods in evaluation order;
    maps: (dst, op, src) with (item, var) pairs in declaration order"""

    def __init__(self):
        self.items, self.order, self.maps, self.free = {}, [], [], []
        self.shape = None        # nesting: list of (group name or None, [item tags])
        self.decl = []           # variable pairs in creation order of their dependence
        self.levels = {}
        self.aliases = {}

    # ---- source text
    def text(self):
        out = [HEAD]
        for tag, it in self.items.items():
            out.append('class E_%s(EquationBase):\n    def __init__(self):\n        super().__init__(tag="e_%s")' % (tag, tag))
            for name, kind, init in it['vars']:
                more = ''
                if (tag, name) in self.levels:
                    more += ', logger_level=LoggerLevel.%s' % self.levels[tag, name]
                if (tag, name) in self.aliases:
                    more += ', alias=%r' % self.aliases[tag, name]
                if kind == 'dot':
                    continue
                fn = {'state': 'add_state', 'param': 'add_parameter', 'const': 'add_constant'}[kind]
                out.append('        self.%s(%r, %r%s)' % (fn, name, init, more))
            for m, lines in it['methods']:
                out.append('    @Equation()\n    def %s(self, scope):' % m)
                out += ['        ' + l for l in lines]
            out.append('\n\nclass I_%s(Item):\n    def __init__(self):\n        super().__init__(%r)\n'
                       '        n = self.create_namespace(%r)\n        n.add_equations([E_%s()])\n\n' % (tag, tag, it['ns'], tag))
        out.append('class S(Subsystem):\n    def __init__(self, tag="sys"):\n        super().__init__(tag)')
        for tag in self.items:
            out.append('        %s = I_%s()' % (tag, tag))
        for (di, dv), op, (si, sv) in self.maps:
            out.append('        %s.%s.%s %s %s.%s.%s' % (di, self.items[di]['ns'], dv, op, si, self.items[si]['ns'], sv))
        for g, tags in (self.shape or [(None, list(self.items))]):
            if g is None:
                out.append('        self.register_items([%s])' % ', '.join(tags))
            else:
                out.append('        g_%s = Subsystem(%r)\n        g_%s.register_items([%s])\n        self.register_item(g_%s)' % (
                    g, g, g, ', '.join(tags), g))
        return '\n'.join(out) + '\n'

    def paths(self, sys_tag='sys'):
        out = {}
        for g, tags in (self.shape or [(None, list(self.items))]):
            for t in tags:
                for name, kind, init in self.items[t]['vars']:
                    out[t, name] = '.'.join([sys_tag] + ([g] if g else []) + [t, self.items[t]['ns'], name])
        return out

    def load(self):
        return load_text(self.text())

    # ---- meaning
    def evaluate(self, given, t=0.0):
        """given: (item, var) -> value for states and whatever nothing computes; returns all values"""
        import numpy as np
        val = dict(given)
        src = {}
        for d, op, s in self.maps:
            src.setdefault(d, []).append(s)

        class G:
            pass
        G.t = t
        for what in self.order:
            if what[0] == 'map':
                val[what[1]] = sum(val[s] for s in src[what[1]])
            elif what[0] == 'add':
                val[what[1]] = val[what[1]] + sum(val[s] for s in what[2])
            else:
                _, tag, m = what
                lines = dict(self.items[tag]['methods'])[m]

                class Scope:
                    def __getattr__(self, n):
                        if n == 'global_vars':
                            return G
                        return val[tag, n]

                    def __setattr__(self, n, v):
                        val[tag, n] = v
                g = {'np': np}
                exec('def f(scope):\n' + '\n'.join('    ' + l for l in lines), g)
                g['f'](Scope())
        return val


def expr(rng, names, depth=2):
    r = rng.random()
    if depth == 0 or r < 0.25 or not names:
        if names and rng.random() < 0.8:
            return 'scope.' + rng.choice(names)
        return repr(round(rng.uniform(-2, 2), 2))
    a, b = expr(rng, names, depth - 1), expr(rng, names, depth - 1)
    k = rng.random()
    if k < 0.35:
        return '(%s + %s)' % (a, b)
    if k < 0.6:
        return '(%s - %s)' % (a, b)
    if k < 0.8:
        return '%s * %s' % (a, b)
    if k < 0.87:
        return '(-%s)' % a
    if k < 0.94:
        return '%s / (1.5 + %s * %s)' % (a, b, b)
    return 'np.sin(%s)' % a


def random_spec(rng, n_items=None, n_methods=None, sums=True, nest=True, use_t=True, chain=0.5):
    s = Spec()
    n_items = n_items or rng.randint(1, 4)
    tags = ['b%d' % i for i in range(n_items)]
    for t in tags:
        s.items[t] = dict(ns=rng.choice(['n1', 'm', 'thermal']), vars=[], methods=[])
    avail = []
    cnt = itertools.count()
    local = {t: [] for t in tags}
    # states and free values first
    pend = []
    for t in tags:
        for _ in range(rng.randint(0, 2)):
            x = 'x%d' % next(cnt)
            s.items[t]['vars'] += [(x, 'state', round(rng.uniform(-1, 1), 3)), (x + '_dot', 'dot', 0)]
            pend.append((t, x))
            local[t].append(x)
            avail.append((t, x))
        for _ in range(rng.randint(1, 2)):
            c = 'c%d' % next(cnt)
            s.items[t]['vars'].append((c, rng.choice(['const', 'param']), round(rng.uniform(-2, 2), 3)))
            local[t].append(c)
            avail.append((t, c))
    if not pend:
        t = tags[0]
        s.items[t]['vars'] += [('x', 'state', 0.5), ('x_dot', 'dot', 0)]
        pend.append((t, 'x'))
        local[t].append('x')
        avail.append((t, 'x'))
    s.states = list(pend)
    n_methods = n_methods or rng.randint(2, 6)
    jobs = ['alg'] * n_methods + ['dot'] * len(pend)
    rng.shuffle(jobs)
    rng.shuffle(pend)
    taken = set()

    def new_param(t):
        p = 'p%d' % next(cnt)
        s.items[t]['vars'].append((p, 'param', round(rng.uniform(-2, 2), 3)))
        r = rng.random()
        if r < 0.2 or not avail:
            pass
        elif r < 0.65 or not sums:
            s.maps.append(((t, p), '=', rng.choice(avail)))
            s.order.append(('map', (t, p)))
        else:
            for src in rng.sample(avail, min(len(avail), rng.randint(1, 3))):
                s.maps.append(((t, p), '+=', src))
            s.order.append(('map', (t, p)))
        local[t].append(p)
        avail.append((t, p))
        return p

    for j in jobs:
        t = pend[-1][0] if j == 'dot' else rng.choice(tags)
        for _ in range(rng.randint(0, 2)):
            new_param(t)
        names = rng.sample(local[t], min(len(local[t]), rng.randint(1, 4)))
        m = 'm%d' % next(cnt)
        lines, outs = [], []
        for _ in range(rng.randint(1, 2) if j == 'alg' else 1):
            if j == 'dot':
                v = pend.pop()[1] + '_dot'
            else:
                v = 'a%d' % next(cnt)
                s.items[t]['vars'].append((v, 'param', round(rng.uniform(-1, 1), 3)))
            e = expr(rng, names)
            if use_t and rng.random() < 0.15:
                e = '%s + scope.global_vars.t' % e
            lines.append('scope.%s = %s' % (v, e))
            outs.append(v)
        s.items[t]['methods'].append((m, lines))
        s.order.append(('eq', t, m))
        for v in outs:
            local[t].append(v)
            avail.append((t, v))
    for t in tags:
        rng.shuffle(s.items[t]['methods'])
    if nest and n_items > 1 and rng.random() < 0.5:
        k = rng.randint(1, n_items - 1)
        s.shape = [('g', tags[:k]), (None, tags[k:])]
        if rng.random() < 0.5:
            s.shape.reverse()
    return s


def several_contributions(rng, sp, targets=None):
    """derivatives (or other equation results) that receive further values through += (temporaries arise)"""
    free = set(given_values(sp))
    values = [(t, n) for t, it in sp.items.items() for n, k, i in it['vars'] if (t, n) in free]
    extra = {}
    made = [(t, l.strip()[6:].split(' ')[0], m) for t, it in sp.items.items() for m, ls in it['methods'] for l in ls]
    for t, v, m in rng.sample(made, rng.randint(0, len(made))):
        src = [rng.choice(values) for _ in range(rng.randint(1, 3))]
        for s in src:
            sp.maps.append(((t, v), '+=', s))
        at = sp.order.index(('eq', t, m))
        sp.order.insert(at + 1, ('add', (t, v), src))
        extra[t, v] = src
    return extra


def build(spec, llvm=False, **kw):
    from numerous.engine.model import Model
    mod = spec.load()
    return Model(mod.S(), use_llvm=llvm, **kw)


def ids(model, spec, sys_tag='sys'):
    """(item, var) -> variable id, by full path"""
    p = spec.paths(sys_tag)
    return {k: model.aliases[v] for k, v in p.items()}


def given_values(spec, rng=None):
    """values for states and everything that nothing computes"""
    computed = {d for d, _, _ in spec.maps}
    for t, it in spec.items.items():
        for m, lines in it['methods']:
            for l in lines:
                l = l.strip()
                if l.startswith('scope.'):
                    computed.add((t, l[6:].split(' ')[0]))
    out = {}
    for t, it in spec.items.items():
        for name, kind, init in it['vars']:
            if (t, name) in computed:
                continue
            out[t, name] = float(init)
    return out

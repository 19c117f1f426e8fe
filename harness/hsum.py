"""Random models in which variables receive any number of contributions from equations and mappings, single items and sets."""
import random
import hmodel
from hkern import HEAD


class Spec:
    def __init__(self, rng, sets=True, small=False):
        self.rng = rng
        self.groups = []                    # (tag, is_set, number of elements, columns [(name, kind)])
        self.cls = []                       # the class of each group
        self.cols = []                      # all columns in order of computation
        for g in range(rng.randint(1, 3)):
            is_set = sets and rng.random() < .55
            n = rng.randint(1, 4) if is_set else rng.randint(1, 2)
            like = rng.choice(self.groups) if self.groups and rng.random() < .3 else None
            if like:                        # another group of the same class
                self.groups.append(('g%d' % g, like[1], n if is_set == like[1] else like[2], like[3]))
                self.cls.append(self.cls[self.groups.index(like)])
                continue
            self.cls.append(g)
            cols = [('p%d' % i, 'given') for i in range(rng.randint(1, 2))]
            if rng.random() < .4:
                cols.insert(rng.randint(0, len(cols)), ('x', 'given'))
            mid = [('z%d' % i, 'eq') for i in range(rng.randint(0, 3))] + [('q%d' % i, 'map') for i in range(rng.randint(0, 2))]
            mid += [('x_dot', 'eq')] if ('x', 'given') in cols else []
            rng.shuffle(mid)
            self.groups.append(('g%d' % g, is_set, n, cols + mid))
        for g, (t, s, n, cols) in enumerate(self.groups):
            self.cols += [(g, c, k) for c, k in cols if k == 'given']
        rest = [[(g, c, k) for c, k in cols if k != 'given'] for g, (t, s, n, cols) in enumerate(self.groups)]
        while any(rest):
            r = rng.choice([r for r in rest if r])
            self.cols.append(r.pop(0))
        self.rank = {(g, c): i for i, (g, c, k) in enumerate(self.cols)}
        # equations: (group, method, variable, {read column: weight}); one or two for each result
        self.eqs = []
        for g, (t, s, n, cols) in enumerate(self.groups):
            for c, k in cols:
                if k == 'eq' and self.cls[g] == g:
                    for i in range(rng.choice([1, 1, 1, 2])):
                        before = [x for x, _ in cols if self.rank[g, x] < self.rank[g, c]]
                        w = {x: rng.randint(-3, 3) for x in rng.sample(before, rng.randint(1, len(before)))}
                        self.eqs.append((g, 'ev_%s_%d' % (c, i), c, w))
        # an equation may give several results, each once, from what comes before all of them
        by = {}
        if rng.random() < .6:
            for i, (g, m, c, w) in enumerate(self.eqs):
                for (h, name), ix in by.items():
                    if h != g:
                        continue
                    first = min(self.rank[g, self.eqs[j][2]] for j in ix + [i])
                    if rng.random() < .8 and all(self.eqs[j][2] != c for j in ix) \
                            and all(self.rank[g, x] < first for j in ix + [i] for x in self.eqs[j][3]):
                        ix.append(i)
                        self.eqs[i] = (g, name, c, w)
                        break
                else:
                    by[g, m] = [i]
        rng.shuffle(self.eqs)
        for g, k in enumerate(self.cls):
            if k != g:
                self.eqs += [(g, m, c, w) for h, m, c, w in self.eqs if h == k]
        # mappings: ((group, element, column), '=' or '+=', (group, element, column))
        self.maps = []
        mapped = [x for x in self.cols if x[2] != 'given']
        for g, c, k in mapped:
            r = self.rank[g, c]
            n = self.groups[g][2]
            earlier = [(h, d) for h, d, _ in self.cols[:r]]
            mode = rng.choice(['none', 'each', 'some', 'many', 'whole'])
            if mode == 'none':
                continue
            if mode == 'whole':             # another column element by element
                for _ in range(rng.randint(1, 2)):
                    h, d = rng.choice(earlier)
                    for e in range(min(n, self.groups[h][2])):
                        self.maps.append(((g, e, c), '+=', (h, e, d)))
                continue
            for e in range(n):
                if mode == 'some' and rng.random() < .5:
                    continue
                k2 = rng.randint(1, 4) if mode == 'many' else 1
                op = '=' if k == 'map' and k2 == 1 and rng.random() < .4 else '+='
                for _ in range(k2):
                    h, d = rng.choice(earlier)
                    computed = [(h3, d3) for h3, d3, k3 in self.cols[:r] if k3 != 'given']
                    if computed and rng.random() < .4:
                        h, d = rng.choice(computed)
                    self.maps.append(((g, e, c), op, (h, rng.randrange(self.groups[h][2]), d)))
                    if k2 > 1 and rng.random() < .3:        # the same once more
                        self.maps.append(self.maps[-1])
        rng.shuffle(self.maps)
        self.init = {(g, e, c): float(rng.randint(-50, 50)) for g, (t, s, n, cols) in enumerate(self.groups) for e in range(n) for c, k in cols}
        for k in self.init:
            if k[2] == 'x_dot':
                self.init[k] = 0.0

    def path(self, g, e, c):
        t, s = self.groups[g][:2]
        return 'sys.%s%s_e%d.m.%s' % ('SET_%s.' % t if s else '', t, e, c)

    def text(self):
        out = [HEAD]
        for g, (t, s, n, cols) in enumerate(self.groups):
            if self.cls[g] != g:
                continue
            out.append('class E%d(EquationBase, Item):\n    def __init__(self, tag, v):\n        super().__init__(tag)' % g)
            decl = [c for c, k in cols if c != 'x_dot']
            self.rng.shuffle(decl)
            out += ['        self.add_%s(%r, v[%r])' % ('state' if c == 'x' else 'parameter', c, c) for c in decl]
            out.append("        n = self.create_namespace('m')\n        n.add_equations([self])\n")
            for name in dict.fromkeys(m for g2, m, c, w in self.eqs if g2 == g):
                out.append('    @Equation()\n    def %s(self, scope):' % name)
                out += ['        scope.%s = %s' % (c, ' + '.join('%d * scope.%s' % (k, x) for x, k in w.items()))
                        for g2, m, c, w in self.eqs if (g2, m) == (g, name)]
                out.append('')
        out.append('class S(Subsystem):\n    def __init__(self, tag="sys"):\n        super().__init__(tag)')
        for g, (t, s, n, cols) in enumerate(self.groups):
            out.append('        e%d = [E%d(%r + str(i), v) for i, v in enumerate(%r)]'
                       % (g, self.cls[g], t + '_e', [{c: self.init[g, e, c] for c, k in cols} for e in range(n)]))
            out.append('        self.register_items(e%d, tag=%r, structure=ItemsStructure.SET)' % (g, t) if s else '        self.register_items(e%d)' % g)
        for (g, e, c), op, (h, f, d) in self.maps:
            out.append('        e%d[%d].m.%s %s e%d[%d].m.%s' % (g, e, c, op, h, f, d))
        return '\n'.join(out)

    def expected(self):
        v = dict(self.init)
        for g, c, k in self.cols:
            for e in range(self.groups[g][2]):
                parts = [sum(w * v[g, e, x] for x, w in ws.items()) for g2, m, c2, ws in self.eqs if (g2, c2) == (g, c)]
                parts += [v[s] for t, op, s in self.maps if t == (g, e, c)]
                if parts:
                    v[g, e, c] = float(sum(parts))
        return v

    def describe(self):
        return 'groups %r of classes %r; equations %r; mappings %s' % (self.groups, self.cls, self.eqs, '; '.join('%s %s %s' % ('%d[%d].%s' % t, op, '%d[%d].%s' % s) for t, op, s in self.maps))


def check(seed, llvm=False, sets=True):
    import numpy as np
    from numerous.engine.model import Model
    rng = random.Random(seed)
    sp = Spec(rng, sets)
    mod = hmodel.load_text(sp.text())
    m = Model(mod.S(), use_llvm=llvm)
    slot = {k: m.vars_ordered_values[m.aliases[sp.path(*k)]] for k in sp.init}
    back = {i: k for k, i in slot.items()}
    want = sp.expected()
    out = m.compiled_compute(np.array([want[back[i]] for i in m.state_idx], dtype=float), np.array([0.0]))
    got = m.var_func()
    ds = [want[back[i][:2] + ('x_dot',)] for i in m.state_idx]
    if list(out) != ds:
        return 'derivatives %r, expected %r in %s' % (list(out), ds, sp.describe())
    bad = []
    for k in want:
        x = got[slot[k]]
        if x != want[k]:
            bad.append('%s is %r, expected %r' % (sp.path(*k), float(x), want[k]))
    if bad:
        return '; '.join(bad[:4]) + ' in ' + sp.describe()

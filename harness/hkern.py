"""Random kernel programs over named slots, with a reference interpretation."""
import ast
import random


class Arg:
    def __init__(self, name, is_global_var=False):
        self.name, self.is_global_var = name, is_global_var


class Program:
    def __init__(self, rng, sets=True, globals_=True, states_are_targets=True):
        self.rng, self.sat = rng, states_are_targets
        ns, np_ = rng.randint(0, 4), rng.randint(1, 8)
        self.states = ['m.s%d' % i for i in range(ns)]
        self.derivs = ['m.s%d_dot' % i for i in range(ns)]
        self.params = ['m.p%d' % i for i in range(np_)]
        self.sets = []
        blocks = [[n] for n in self.states + self.derivs + self.params]
        if sets:
            for k in range(rng.randint(0, 2)):
                n, w = rng.randint(1, 4), rng.randint(1, 4)
                rows = [['set%d.e%d.a%d' % (k, e, p) for p in range(w)] for e in range(n)]
                self.sets.append(rows)
                blocks.append([x for r in rows for x in r])
                if w > 1 and rng.random() < .5:         # one column holds states
                    c = rng.randrange(w)
                    for r in rows:
                        self.states.append(r[c])
                        self.derivs.append(r[c] + '_dot')
                        blocks.append([r[c] + '_dot'])
        rng.shuffle(blocks)
        names = [x for b in blocks for x in b]
        if rng.random() < .3:                        # set elements anywhere
            rng.shuffle(names)
        self.slot = {x: i for i, x in enumerate(names)}
        items = list(self.slot.items())
        rng.shuffle(items)
        self.slot = dict(items)                      # slots in no particular order of the names
        self.init = [float(rng.randint(-50, 50)) for _ in names]
        g = ['g%d' % i for i in range(rng.randint(0, 3) if globals_ else 0)]
        sl = list(range(len(g)))
        rng.shuffle(sl)
        self.globals = dict(zip(g, sl))
        rng.shuffle(self.states)
        self.derivs = [s + '_dot' for s in self.states]
        self.fns, self.ops = [], []
        for _ in range(rng.randint(1, 7)):
            kind = rng.choice(['map', 'map', 'call', 'call'] + (['set'] if self.sets else []))
            getattr(self, kind)()

    def fn(self, arity, tids):
        w = [[self.rng.randint(-3, 3) for _ in range(arity)] + [self.rng.randint(-5, 5)] for _ in tids]
        self.fns.append((arity, list(tids), w))
        return len(self.fns) - 1

    def map(self):
        names = list(self.slot)
        src = [self.rng.choice(names) for _ in range(self.rng.randint(1, 5))]
        free = [x for x in names if self.sat or x not in self.states]
        tgt = self.rng.sample(free, self.rng.randint(1, min(3, len(free))))
        if len(tgt) > 1:                            # targets assigned one after the other must not feed each other
            tgt = [x for x in tgt if x not in src] or tgt[:1]
        self.ops.append(('map', src, tgt))

    def call(self):
        names = list(self.slot)
        n = self.rng.randint(1, 5)
        args = [(self.rng.choice(names), False) if not self.globals or self.rng.random() < .75 else (self.rng.choice(list(self.globals)), True) for _ in range(n)]
        free = [x for x in names if self.sat or x not in self.states]
        own = [i for i in range(n) if args[i][0] in free]
        if not own:
            args[0], own = (self.rng.choice(free), False), [0]
        seen, tids = set(), []
        for i in self.rng.sample(own, self.rng.randint(1, len(own))):
            if args[i][0] not in seen:
                seen.add(args[i][0])
                tids.append(i)
        if self.rng.random() < .6:
            tids.sort()
        self.ops.append(('call', self.fn(n, tids), args, tids))

    def set(self):
        rows = self.rng.choice(self.sets)
        w = len(rows[0])
        free = [c for c in range(w) if self.sat or rows[0][c] not in self.states]
        tids = self.rng.sample(free, self.rng.randint(1, len(free)))
        self.ops.append(('set', self.fn(w, tids), rows, tids))

    def ast_fn(self, k):
        arity, tids, w = self.fns[k]
        a = ['a%d' % i for i in range(arity)]
        e = ['+'.join('%d*%s' % (c, x) for c, x in zip(r, a)) + '+%d' % r[-1] for r in w]
        return ast.parse('def f%d(%s):\n    return %s' % (k, ', '.join(a), e[0] if len(e) == 1 else '(%s)' % ', '.join(e))).body[0]

    def llvm_fn(self, k, rng):
        """targets are passed as addresses"""
        from numba import carray
        arity, tids, w = self.fns[k]
        rd = ['carray(a%d, (1,))[0]' % i if i in tids else 'a%d' % i for i in range(arity)]
        out = ['def f%d(%s):' % (k, ', '.join('a%d' % i for i in range(arity)))]
        for j, r in enumerate(w):
            out.append('    r%d = %s + %d.0' % (j, ' + '.join('%d.0*%s' % (c, x) for c, x in zip(r, rd)), r[-1]))
        out += ['    carray(a%d, (1,))[0] = r%d' % (t, j) for j, t in enumerate(tids)]
        sig = 'void(%s)' % ', '.join('CPointer(float64)' if i in tids else 'float64' for i in range(arity))
        ns = {'carray': carray}
        name = 'f%d_%x' % (k, rng.getrandbits(48))
        exec('\n'.join(out).replace('def f%d(' % k, 'def %s(' % name), ns)
        return ns[name], sig

    def describe(self):
        return 'slots %r, initial %r, states %r, globals %r, functions %r, program %r' % (self.slot, self.init, self.states, self.globals, self.fns, self.ops)

    def run(self, mem, y, g):
        """the memory after one evaluation at states y, and the derivatives"""
        mem = list(mem)
        for s, x in zip(self.states, y):
            mem[self.slot[s]] = x
        for op in self.ops:
            if op[0] == 'map':
                for t in op[2]:
                    mem[self.slot[t]] = sum(mem[self.slot[s]] for s in op[1])
            else:
                rows = [op[2]] if op[0] == 'call' else [[(x, False) for x in r] for r in op[2]]
                w = self.fns[op[1]][2]
                for r in rows:
                    v = [g[self.globals[x]] if isg else mem[self.slot[x]] for x, isg in r]
                    new = [sum(c * x for c, x in zip(ww, v)) + ww[-1] for ww in w]
                    for t, x in zip(op[3], new):
                        mem[self.slot[r[t][0]]] = x
        return mem, [mem[self.slot[d]] for d in self.derivs]


HEAD = """import numpy as np
from numerous.engine.system import Item, Subsystem, ItemsStructure
from numerous.multiphysics import EquationBase, Equation

"""
SETMOD = HEAD + '''
class E(EquationBase, Item):
    def __init__(self, tag, vals):
        super().__init__(tag)
{decl}
        n = self.create_namespace('m')
        n.add_equations([self])

    @Equation()
    def ev(self, scope):
{body}

class S(Subsystem):
    def __init__(self, vals, tag='sys'):
        super().__init__(tag)
        self.register_items([E('e%d' % i, v) for i, v in enumerate(vals)], tag='grp', structure=ItemsStructure.SET)
'''


def set_model(seed, llvm):
    import hmodel
    import numpy as np
    from numerous.engine.model import Model
    rng = random.Random(seed)
    n, npar, nst = rng.randint(1, 5), rng.randint(0, 3), rng.randint(1, 2)
    P, X = ['p%d' % i for i in range(npar)], ['x%d' % i for i in range(nst)]
    decl = P + X
    rng.shuffle(decl)
    w = {x: [rng.randint(-3, 3) for _ in P + X] for x in X}
    upd = {q: [rng.randint(-2, 2) for _ in X] for q in P if rng.random() < .4}
    d = ['        self.add_%s(%r, vals[%r])' % ('state' if x in X else 'parameter', x, x) for x in decl]
    lines = ['        scope.%s = %s' % (q, ' + '.join('%d * scope.%s' % (c, x) for c, x in zip(upd[q], X))) for q in upd]
    rest = ['        scope.%s_dot = %s' % (x, ' + '.join('%d * scope.%s' % (c, y) for c, y in zip(w[x], P + X))) for x in X]
    rng.shuffle(rest)
    mod = hmodel.load_text(SETMOD.replace('{decl}', '\n'.join(d)).replace('{body}', '\n'.join(lines + rest)))
    vals = [{x: float(rng.randint(-9, 9)) for x in decl} for _ in range(n)]
    m = Model(mod.S(vals), use_llvm=llvm)
    I = {(i, x): m.aliases['sys.SET_grp.e%d.m.%s' % (i, x)] for i in range(n) for x in decl + [y + '_dot' for y in X]}
    new = [dict(v) for v in vals]
    vo = m.vars_ordered_values
    back = {vo[I[i, x]]: (i, x) for i in range(n) for x in decl}
    y = []
    for s in m.state_idx:
        i, x = back[s]
        new[i][x] = float(rng.randint(-9, 9))
        y.append(new[i][x])
    out = m.compiled_compute(np.array(y), np.array([0.0]))
    got = m.var_func()
    for i, v in enumerate(new):
        for q in upd:
            v[q] = float(sum(c * v[x] for c, x in zip(upd[q], X)))
        for x in X:
            v[x + '_dot'] = float(sum(c * v[z] for c, z in zip(w[x], P + X)))
    for (i, x), k in I.items():
        if got[vo[k]] != new[i][x]:
            return 'element %d of %d: %s is %r, expected %r (declared %r, updated %r, weights %r, values %r)' % (i, n, x, got[vo[k]], new[i][x], decl, upd, w, vals)
    wd = [new[back[s][0]][back[s][1] + '_dot'] for s in m.state_idx]
    if list(out) != wd:
        return 'derivatives %r, expected %r' % (list(out), wd)


GLOBMOD = HEAD + '''
class E(EquationBase, Item):
    def __init__(self, tag, x):
        super().__init__(tag)
        self.add_state('x', x)
        self.create_namespace('m').add_equations([self])

    @Equation()
    def ev(self, scope):
        scope.x_dot = {expr}

class S(Subsystem):
    def __init__(self, n, tag='sys'):
        super().__init__(tag)
        self.register_items([E('e%d' % i, 1.0) for i in range(n)])
'''


def globals_model(seed, llvm):
    import hmodel
    import numpy as np
    from numerous.engine.model import Model
    rng = random.Random(seed)
    names = ['g%s' % c for c in rng.sample('abcdefgh', rng.randint(0, 4))]
    used = ['t'] + names
    rng.shuffle(used)
    used = used[:rng.randint(1, len(used))]
    w = {g: rng.randint(1, 5) for g in used}
    mod = hmodel.load_text(GLOBMOD.replace('{expr}', ' + '.join('%d * scope.global_vars.%s' % (w[g], g) for g in used) + ' + scope.x'))
    init = {g: float(rng.randint(1, 9)) for g in names}
    n = rng.randint(1, 3)
    m = Model(mod.S(n), use_llvm=llvm, global_variables=[(g, init[g]) for g in names])
    g = np.array([float(rng.randint(-9, 9)) for _ in ['t'] + names])
    val = dict(zip(['t'] + names, g))
    y = np.array([float(rng.randint(-9, 9)) for _ in range(n)])
    d = m.compiled_compute(y, g)
    want = [sum(w[x] * val[x] for x in used) + v for v in y]
    if list(d) != want:
        return 'derivatives %r, expected %r (globals in order %r are %r, used %r)' % (list(d), want, ['t'] + names, list(g), w)

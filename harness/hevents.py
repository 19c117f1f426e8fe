"""Random models with state and time events at model and item level, internal and external, and what they mean: every
event function is also called as it is written, on a view of the variables from its owner's point of view."""
import random

from hlib import *
from hmodel import HEAD, load_text

numba_stub()
TAGS = ['a', 'aa', 'a1', 'b']
NAMES = ['x', 'y', 'p', 'q', 'xp', 'k']


class Events:
    def __init__(self, rng, n_events=None, unknown=False):
        self.rng, self.uid, self.unknown = rng, 0, unknown
        self.items = []              # (class, groups, tag, [(name, kind, init, alias)])
        self.events = []             # dicts
        used, groups = set(), rng.choice([[], ['g'], ['a'], ['g', 'a']])
        for k in range(rng.randint(1, 4)):
            g = [rng.choice(groups)] if groups and rng.random() < .4 else []
            free = [t for t in TAGS if tuple(g + [t]) not in used and not (not g and t in groups)]
            if not free:
                continue
            t = rng.choice(free)
            used.add(tuple(g + [t]))
            names = rng.sample(NAMES, rng.randint(2, 5))
            kinds = ['state' if rng.random() < .4 else 'param' for _ in names]
            self.items.append(('I%d' % k, g, t, [(n, kd, self.val(), n + '_of_%s' % '_'.join(g + [t]) if rng.random() < .15 else None)
                                                 for n, kd in zip(names, kinds)]))
        if not any(kd == 'state' for it in self.items for _, kd, _, _ in it[3]):
            c, g, t, vs = self.items[0]
            vs[-1] = (vs[-1][0], 'state', vs[-1][2], vs[-1][3])
        self.full = {}               # (item index, name) -> every full name
        for i, (c, g, t, vs) in enumerate(self.items):
            for n, kd, init, alias in vs:
                self.full[i, n] = ['.'.join(['sys'] + g + [t, 'm', n])] + ([alias] if alias else [])
        n = rng.randint(1, 7) if n_events is None else n_events
        for k in range(n):
            owner = rng.choice([None] + list(range(len(self.items))))
            self.events.append(dict(owner=owner, kind=rng.choice(['state', 'state', 'time']), external=rng.random() < .35,
                                    direction=rng.choice([-1, 1, -1, 1, 0]), key='ev%d' % k, n=k,
                                    periodic=rng.random() < .5, array=rng.random() < .5))
        self.text_functions = {}

    def val(self):
        self.uid += 1
        return round(self.uid + self.rng.random(), 3)

    def name(self, ev, key):
        owner, f = ev['owner'], self.rng.choice(self.full[key])
        if ev['external']:           # an external action gets a dictionary with one entry per name: it uses one of them
            f = ev.setdefault('used', {}).setdefault(key, f)
        if owner is not None:
            c, g, t, vs = self.items[owner]
            p = '.'.join(['sys'] + g + [t]) + '.'
            if f.startswith(p):
                return f[len(p):]
        return f

    # -- function bodies
    def expr(self, ev, v, t, depth=0):
        r = self.rng
        c = r.random()
        if depth > 2 or c < .3:
            return '%s[%r]' % (v, self.name(ev, r.choice(list(self.full))))
        if c < .4:
            return t
        if c < .5:
            return repr(self.val() * r.choice([1, 1, 1, 1e-9]))
        if c < .62 and 'c' in ev['closure']:
            return ev['cname']
        if c < .7:
            return 'np.abs(%s)' % self.expr(ev, v, t, depth + 1)
        return '(%s %s %s)' % (self.expr(ev, v, t, depth + 1), r.choice('+-*'), self.expr(ev, v, t, depth + 1))

    def stmts(self, ev, v, t, ind):
        r, out = self.rng, []
        for _ in range(r.randint(1, 4)):
            n = self.name(ev, r.choice(list(self.full)))
            tgt = '%s[%r]' % (v, n)
            c = r.random()
            if not ev['external'] and c < .25:
                parts = n.rsplit('.', 1)
                if len(parts) == 2:
                    nm = r.choice(['nm', 'name_'])
                    if 's' in ev['closure'] and r.random() < .5:
                        ev['prefix'] = ev.get('prefix') or parts[0] + '.'
                        n = ev['prefix'] + n.rsplit('.', 1)[1] if n.startswith(ev['prefix']) and '.' not in n[len(ev['prefix']):] else None
                        if n:
                            out.append("%s = %s + %r" % (nm, ev['sname'], n.rsplit('.', 1)[1]))
                            tgt = '%s[%s]' % (v, nm)
                    else:
                        out.append("%s = %r + %r" % (nm, parts[0] + '.', parts[1]))
                        tgt = '%s[%s]' % (v, nm)
            c = r.random()
            if c < .3:
                out.append('%s = %r' % (tgt, self.val()))
            elif c < .45 and 'c' in ev['closure']:
                out.append('%s = %s' % (tgt, ev['cname']))
            elif c < .6:
                out.append('%s %s= %s' % (tgt, r.choice('+-*'), self.expr(ev, v, t, 1)))
            elif c < .72:
                out.append('if %s > %s:' % (self.expr(ev, v, t, 1), self.expr(ev, v, t, 1)))
                out.append('    %s = %s' % (tgt, self.expr(ev, v, t)))
            elif c < .8:
                out.append('w = %s' % self.expr(ev, v, t))
                out.append('%s = w - %r' % (tgt, self.val()))
            else:
                out.append('%s = %s' % (tgt, self.expr(ev, v, t)))
        return [ind + l for l in out]

    def functions(self, ev, in_class):
        """text of the functions of one event; returns lines, condition expression, action expression"""
        r = self.rng
        ev['closure'] = r.choice(['', '', 'c', 's', 'cs'])
        v, t = r.choice(['v', 'variables', 'states']), r.choice(['t', 'time'])
        ev['cname'] = r.choice(['c', 'limit', 'c', 'limit'] + [n for n in ('result', 'states', 't', 'a_idx', 'action_0', 'condition_1') if n not in (v, t)])
        ev['sname'] = r.choice(['pre', 'base'])
        fn = lambda what: r.choice([what] + ([n for n in ['%s_%d' % (what, ev['n'])] if n != ev['cname']]))
        out, cond, act = [], None, fn('action')
        body = self.stmts(ev, v, t, '        ')
        if self.unknown and ev['n'] == 0:
            bad = r.choice(['nothing', 'm.nothing', 'x', 'sys.m.x', 'sys.a.m.'])
            body.append('        %s[%r] = 1.0' % (v, bad))
        lines = ['def make_%d(%s, %s):' % (ev['n'], ev['cname'], ev['sname'])]
        if ev['kind'] == 'state':
            cond = fn('condition')
            lines.append('    def %s(%s, %s):' % (cond, t, v))
            if r.random() < .3:
                lines.append('        w = %s' % self.expr(ev, v, t))
                lines.append('        return w - %s' % self.expr(ev, v, t))
            else:
                lines.append('        return %s' % self.expr(ev, v, t))
        lines.append('    def %s(%s, %s):' % (act, t, v))
        lines += body
        lines.append('    return %s, %s' % (cond, act))
        args = '%r, %r' % (self.val(), ev.get('prefix') or 'm.')
        return lines, 'F%d = make_%d(%s)' % (ev['n'], ev['n'], args)

    def text(self):
        out = [HEAD, 'import numpy as np', '']
        for ev in self.events:
            lines, call = self.functions(ev, False)
            out += lines + [call, '']
        for i, (c, g, t, vs) in enumerate(self.items):
            out += ['class E%s(EquationBase):' % c, '    def __init__(self):', '        super().__init__(tag="e")']
            for n, kd, init, alias in vs:
                more = ', alias=%r' % alias if alias else ''
                out.append('        self.%s(%r, %r%s)' % ('add_state' if kd == 'state' else 'add_parameter', n, init, more))
            st = [n for n, kd, _, _ in vs if kd == 'state']
            out += ['    @Equation()', '    def eval(self, scope):'] if st else []
            for s in st:
                out.append('        scope.%s_dot = scope.%s' % (s, self.rng.choice(vs)[0]))
            out += ['class %s(Item):' % c, '    def __init__(self):', '        super().__init__(%r)' % t,
                    '        self.create_namespace("m").add_equations([E%s()])' % c]
            for ev in self.events:
                if ev['owner'] == i:
                    out.append('        ' + self.add(ev, 'self'))
            out.append('')
        out += ['class S(Subsystem):', '    def __init__(self):', '        super().__init__("sys")']
        done = set()
        for c, g, t, vs in self.items:
            if not g:
                out.append('        self.register_item(%s())' % c)
            elif g[0] not in done:
                done.add(g[0])
                out += ['        s = Subsystem(%r)' % g[0],
                        '        s.register_items([%s])' % ', '.join('%s()' % x[0] for x in self.items if x[1] == g),
                        '        self.register_item(s)']
        out.append('def model_events(m):\n    pass')
        for ev in self.events:
            if ev['owner'] is None:
                out.append('    ' + self.add(ev, 'm'))
        return '\n'.join(out) + '\n'

    def add(self, ev, on):
        if ev['kind'] == 'state':
            return '%s.add_event(%r, F%d[0], F%d[1], direction=%d, is_external=%r)' % (on, ev['key'], ev['n'], ev['n'], ev['direction'], ev['external'])
        when = 'periodicity=2.0' if ev['periodic'] else 'timestamps=np.array([1.0, 2.0])' if ev['array'] else 'timestamps=[1.0, 3.0]'
        return '%s.add_timestamp_event(%r, F%d[1], %s, is_external=%r)' % (on, ev['key'], ev['n'], when, ev['external'])


class View:
    """what an event function sees: the variables under the names of its owner"""

    def __init__(self, names, values):
        self.names, self.values = names, values

    def __getitem__(self, n):
        return self.values[self.names[n]]

    def __setitem__(self, n, v):
        self.values[self.names[n]] = v


class Built:
    def __init__(self, spec):
        from numerous.engine.model import Model
        from numerous.engine.simulation.solver_interface import generate_numerous_engine_solver_model
        self.spec = spec
        self.source = spec.text()
        mod = load_text(self.source)
        m = self.m = Model(mod.S(), use_llvm=False)
        mod.model_events(m)
        m._generate_compiled_model(0.0, 10)
        self.nm, self.handler = generate_numerous_engine_solver_model(m)
        self.slot = {k: m.vars_ordered_values[m.aliases[f[0]]] for k, f in spec.full.items()}
        self.F = {ev['key']: getattr(mod, 'F%d' % ev['n']) for ev in spec.events}
        self.by_key = {ev['key']: ev for ev in spec.events}

    def names(self, owner):
        out = {}
        p = None
        if owner is not None:
            c, g, t, vs = self.spec.items[owner]
            p = '.'.join(['sys'] + g + [t]) + '.'
        for k, fs in self.spec.full.items():
            for f in fs:
                out[f[len(p):] if p and f.startswith(p) else f] = self.slot[k]
        return out

    def condition(self, ev, t, values):
        return self.F[ev['key']][0](t, View(self.names(ev['owner']), values))

    def action(self, ev, t, values):
        self.F[ev['key']][1](t, View(self.names(ev['owner']), values))

    def state_slots(self):
        return list(self.m.state_idx)

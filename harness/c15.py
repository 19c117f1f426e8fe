"""Bounded: random trees of systems and items built in any order; names seen from every system; items looked up by path."""
from hlib import *

h = H('random trees of up to 14 systems and items, depth up to 6, contents registered before or after their system, repeated tags on '
      'different branches, 6 delimiters, present and missing paths; path extension repeated; names in the built model', 40)
numba_stub()
from numerous.engine.system import Item, Subsystem, ConnectorItem
from numerous.engine.system.item_path import ItemPath
from numerous.engine.variables import VariableDescription, VariablePath
from numerous.multiphysics import EquationBase, Equation
from numerous.engine.model import Model
NAMES = ['a', 'b', 'ab', 'B', 'a b', 'x_1', 'sys', 'é', 'a1']


class EqD(EquationBase):
    def __init__(self, names):
        super().__init__(tag='eqd')
        self.add_state('S', 1.0)
        for n in names:
            self.add_parameter(n, 2.0)

    @Equation()
    def f(self, scope):
        scope.S_dot = -scope.S


def tree(rng, equations=False):
    """returns nodes: list of (object, parent index or None, [names of the namespaces -> variables])"""
    nodes = [(Subsystem(rng.choice(NAMES)), None, {})]
    for k in range(rng.randint(1, 13)):
        systems = [i for i, (o, p, n) in enumerate(nodes) if isinstance(o, Subsystem)]
        # deep trees too
        p = systems[-1] if rng.random() < 0.5 else rng.choice(systems)
        used = [o.tag for o, q, n in nodes if q == p]
        free = [t for t in NAMES if t not in used]
        if not free:
            continue
        cls = rng.choice([Subsystem, Subsystem, Item, Item, ConnectorItem])
        o = cls(rng.choice(free))
        nss = {}
        for ns in rng.sample(['t1', 'n', 'flow'], rng.randint(0 if cls is Subsystem else 1, 2)):
            names = rng.sample(['x', 'y', 'T', 'p1'], rng.randint(1, 3))
            s = o.create_namespace(ns)
            if equations:
                s.add_equations([EqD(names)])
                names = names + ['S', 'S_dot']
            else:
                for n in names:
                    s.create_variable_from_desc(VariableDescription(tag=n, initial_value=1.0))
            nss[ns] = names
        nodes.append((o, p, nss))
    return nodes


def register(rng, nodes, how):
    links = [(k, p) for k, (o, p, n) in enumerate(nodes) if p is not None]
    if how == 'bottom-up':
        links.sort(key=lambda l: -l[0])
    elif how == 'mixed':
        rng.shuffle(links)
    for k, p in links:
        nodes[p][0].register_item(nodes[k][0])


def chain(nodes, k):
    out = []
    while k is not None:
        out.append(k)
        k = nodes[k][1]
    return out          # the node itself first, then its systems outwards


def names(seed, how):
    rng = random.Random(seed)
    nodes = tree(rng)
    register(rng, nodes, how)
    for rnd in range(2):
        for k, (o, p, nss) in enumerate(nodes):
            up = chain(nodes, k)
            for ns, vs in nss.items():
                for n in vs:
                    v = o.registered_namespaces[ns].variables[n]
                    for d in range(len(up)):
                        want = '.'.join([nodes[i][0].tag for i in reversed(up[:d + 1])] + [ns, n])
                        got = v.path.path.get(nodes[up[d]][0].id)
                        if got is None or list(got) != [want]:
                            return 'seen from %s the variable is %r instead of %r' % (nodes[up[d]][0].tag, got, want)
                    for i, (q, _, _) in enumerate(nodes):
                        if i not in up and q.id in v.path.path:
                            return '%s is also known in a system that does not contain it' % want
                    if v.path.primary_path != want:
                        return 'primary name %r instead of %r' % (v.path.primary_path, want)
                    if want not in [x for y in v.path for x in y]:
                        return 'iteration over the names misses %r' % want
        # the same pairs of levels once more
        for k, (o, p, nss) in enumerate(nodes):
            up = chain(nodes, k)
            for ns in nss:
                for n in nss[ns]:
                    v = o.registered_namespaces[ns].variables[n]
                    for a, b in zip(up, up[1:]):
                        v.path.extend_path(nodes[a][0].id, nodes[b][0].id, nodes[b][0].tag)
    top = nodes[0][0]
    for k, (o, p, nss) in enumerate(nodes):
        path = [nodes[i][0].tag for i in reversed(chain(nodes, k))]
        if o.path != path:
            return 'path of item is %r instead of %r' % (o.path, path)
        for ns, vs in nss.items():
            for n in vs:
                if not top.find_variable('.'.join(path + [ns, n])):
                    return 'variable %s not found from the top' % '.'.join(path + [ns, n])


def lookup(seed):
    rng = random.Random(seed)
    nodes = tree(rng)
    register(rng, nodes, 'bottom-up')
    delim = rng.choice(['.', '/', '::', '|', '->', '_'])
    for base in range(len(nodes)):
        below = {}
        for k in range(len(nodes)):
            up = chain(nodes, k)
            if base in up:
                below[delim.join(nodes[i][0].tag for i in reversed(up[:up.index(base) + 1]))] = nodes[k][0]
        ask = list(below)
        for a in list(below):
            ask += [a + delim, delim + a, a + delim + 'missing', 'missing' + delim + a, a + 'x', a[1:], a[:-1], a.replace(delim, delim + delim), a + delim + a]
        ask += ['', delim, 'missing'] + [o.tag for o, p, n in nodes]
        for a in ask:
            got = nodes[base][0].get_item(ItemPath(a, delim))
            if delim == '_' and '_' in ''.join(o.tag for o, p, n in nodes):
                continue
            want = below.get(a)
            if got is not want:
                return 'looking up %r from %r gave %r instead of %r' % (a, nodes[base][0].tag, got and (got.tag, got.path), want and (want.tag, want.path))


def extend(seed):
    rng = random.Random(seed)
    v = VariablePath(['v'], 'L0')
    seen, levels = set(), {'L0': ['v']}
    for k in range(rng.randint(1, 12)):
        a = rng.choice(list(levels))
        b = 'L%d' % rng.randint(1, 5)
        if a == b:
            continue
        tag = rng.choice(['s', 't', 's'])
        v.extend_path(a, b, tag)
        if (a, b) not in seen:
            levels.setdefault(b, [])
            levels[b] = levels[b] + [tag + '.' + x for x in levels[a]]
            seen.add((a, b))
        if v.path != levels:
            return 'names %r instead of %r' % (v.path, levels)


def built(seed):
    rng = random.Random(seed)
    nodes = tree(rng, True)
    if not any(n for o, p, n in nodes):
        return
    register(rng, nodes, rng.choice(['bottom-up', 'mixed']))
    m = Model(nodes[0][0], use_llvm=False)
    need(m, 'aliases')
    all_ = {}
    for k, (o, p, nss) in enumerate(nodes):
        for ns, vs in nss.items():
            for n in vs:
                all_['.'.join([nodes[i][0].tag for i in reversed(chain(nodes, k))] + [ns, n])] = o.registered_namespaces[ns].variables[n]
    for path, v in all_.items():
        if m.aliases.get(path) != v.id:
            return 'the model knows %r as %r' % (path, m.aliases.get(path))
    need(m, 'generate_path_to_varaible')
    m._generate_compiled_model(0.0, 10)
    m.generate_path_to_varaible()
    for path, v in all_.items():
        if m.path_to_variable.get(path) is not v:
            return '%r does not lead to its variable' % path


for how in ('bottom-up', 'top-down', 'mixed'):
    for k in range(150 if not THOROUGH else 3000):
        if h.left():
            h.case('names-' + how, lambda: names(SEED * 1009 + k, how), '%s seed %d' % (how, SEED * 1009 + k))
for k in range(150 if not THOROUGH else 3000):
    if h.left():
        h.case('lookup', lambda: lookup(SEED * 1013 + k), 'seed %d' % (SEED * 1013 + k))
for k in range(300 if not THOROUGH else 3000):
    if h.left():
        h.case('extend-twice', lambda: extend(SEED * 1019 + k), 'seed %d' % (SEED * 1019 + k))
for k in range(6 if not THOROUGH else 60):
    if h.left():
        h.case('built', lambda: built(SEED * 1021 + k), 'seed %d' % (SEED * 1021 + k))
h.done()

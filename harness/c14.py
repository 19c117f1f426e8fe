"""Bounded: random histories of registrations, bindings and ports on real objects against a reference."""
from hlib import *

h = H('random histories of up to 40 registrations of items, sets, namespaces, bindings, ports and container entries, with taken, free, missing and '
      'similar names and objects of other types', 40)
numba_stub()
from numerous.engine.system import Item, Subsystem, ConnectorItem, ItemsStructure
from numerous.engine.system import ConnectorTwoWay
from numerous.engine.system.subsystem import ItemSet
from numerous.engine.system.namespace import VariableNamespace, VariableNamespaceBase
from numerous.engine.system.binding import Binding
from numerous.engine.variables import VariableDescription, Variable
from numerous.utils.dict_wrapper import _DictWrapper
NAMES = ['a', 'b', 'ab', 'A', 'a.b', 'x1']


def refused(f, *exc):
    try:
        f()
    except (exc or (ValueError,)):
        return True
    return False


class Plain(Item):
    def __init__(self, tag, ns=('t',)):
        super().__init__(tag)
        for n in ns:
            self.create_namespace(n).create_variable_from_desc(VariableDescription(tag='x', initial_value=1.0))


class Other(Plain):
    pass


class Sub(Subsystem):
    def __init__(self, tag):
        super().__init__(tag)
        self.create_namespace('t').create_variable_from_desc(VariableDescription(tag='x', initial_value=1.0))


class Conn(ConnectorItem):
    def __init__(self, tag):
        super().__init__(tag)
        self.create_namespace('t').create_variable_from_desc(VariableDescription(tag='x', initial_value=1.0))


def snap(systems, conns, items):
    return ([(s.id, [(k, id(v)) for k, v in s.registered_items.items()], [(k, id(s.ports[k])) for k in s.ports.keys()]) for s in systems],
            [(c.id, [(k, id(c.bindings[k]), id(c.bindings[k].binded_item)) for k in c.bindings.keys()], id(c.__dict__.get('p')), id(c.__dict__.get('q'))) for c in conns],
            [(i.id, i.level, list(i.path), [(k, id(i.registered_namespaces[k])) for k in i.registered_namespaces.keys()]) for i in items])


def history(seed):
    rng = random.Random(seed)
    systems = [Subsystem('s%d' % k) for k in range(2)]
    conns = [ConnectorItem('c%d' % k) for k in range(2)]
    items = [Plain(rng.choice(NAMES)) for k in range(6)]
    reg = {s.id: {} for s in systems}
    nss = {i.id: {'t'} for i in items}
    bnd = {c.id: {} for c in conns}
    ports = {s.id: {} for s in systems}
    log = []
    for step in range(rng.randint(5, 40)):
        before = snap(systems, conns, items)
        what = rng.choice(['item', 'item', 'items', 'ns', 'ns-object', 'binding', 'bind', 'bind', 'assign', 'port', 'container', 'update'])
        s, c, i = rng.choice(systems), rng.choice(conns), rng.choice(items)
        n = rng.choice(NAMES)
        log.append((what, s.tag, c.tag, i.tag, n))
        ref = False
        if what == 'item':
            if rng.random() < 0.5:
                i = rng.choice([Plain, Plain, Other, Sub, Conn])(n)
                items.append(i)
                nss[i.id] = {'t'}
                before = snap(systems, conns, items)
            ref = i.tag in [x.tag for x in reg[s.id].values()]
            got = refused(lambda: s.register_item(i))
            if not ref:
                reg[s.id][i.id] = i
        elif what == 'items':
            k = [Plain(rng.choice(NAMES)) for _ in range(rng.randint(1, 3))]
            got = refused(lambda: s.register_items(k))
            for x in k:
                if x.tag in [y.tag for y in reg[s.id].values()]:
                    ref = True
                    break
                reg[s.id][x.id] = x
            before = None
        elif what == 'ns':
            ref = n in nss[i.id]
            got = refused(lambda: i.create_namespace(n))
            nss[i.id].add(n)
        elif what == 'ns-object':
            o = i.get_default_namespace() if rng.random() < 0.3 else VariableNamespace(i, n)
            ref = o.tag in nss[i.id]
            got = refused(lambda: i.register_namespace(o))
            nss[i.id].add(o.tag)
            if not got and not refused(lambda: i.register_namespace(o)):
                return 'a namespace was registered twice; %s' % log
        elif what == 'binding':
            n = rng.choice(['p', 'q', 'pq', 'P'])
            ref = n in bnd[c.id]
            got = refused(lambda: c.create_binding(n))
            bnd[c.id].setdefault(n, None)
        elif what in ('bind', 'assign'):
            n = rng.choice(['p', 'q', 'pq', 'P'])
            if what == 'assign' and n not in bnd[c.id]:
                continue
            ref = n not in bnd[c.id] or bnd[c.id][n] is not None
            got = refused((lambda: c.bind(**{n: i})) if what == 'bind' else (lambda: setattr(c, n, i)))
            if not ref:
                bnd[c.id][n] = i
        elif what == 'port':
            ref = i.id not in reg[s.id]
            got = refused(lambda: s.add_port(n, i))
            if not ref:
                ports[s.id][n] = i
        elif what in ('container', 'update'):
            cont, good, key = rng.choice([(i.registered_namespaces, VariableNamespaceBase, 'zz'), (c.bindings, Binding, 'zz'), (s.ports, Item, 'zz'),
                                          (i.registered_namespaces['t'].variables, Variable, 'zz')])
            bad = rng.choice([x for x in (3, 'a', None, i, c.get_default_namespace(), Binding('n'), [], Item) if not isinstance(x, good)])
            ref = True
            if what == 'update':
                got = refused(lambda: cont.update({key: bad}))
            else:
                def put():
                    cont[key] = bad
                got = refused(put)
            if key in cont.keys():
                return 'a typed container took %r; %s' % (bad, log)
        if got != ref:
            return '%s was %s; %s' % (what, 'refused' if got else 'accepted', log)
        if got and before is not None and snap(systems, conns, items) != before:
            return 'the refused %s changed something; %s' % (what, log)
        for s in systems:
            if {k: id(v) for k, v in s.registered_items.items()} != {k: id(v) for k, v in reg[s.id].items()}:
                return 'registered items are not what was registered after %s' % log
            tags = [x.tag for x in s.registered_items.values()]
            if len(set(tags)) != len(tags):
                return 'two items are called alike after %s' % log
            if {k: id(s.ports[k]) for k in s.ports.keys()} != {k: id(v) for k, v in ports[s.id].items()}:
                return 'ports are not what was added after %s' % log
        for c in conns:
            if {k: id(c.bindings[k].binded_item) for k in c.bindings.keys()} != {k: id(v) for k, v in bnd[c.id].items()}:
                return 'bindings hold other items after %s' % log
            if sorted(map(id, c.get_binded_items())) != sorted(id(v) for v in bnd[c.id].values() if v is not None):
                return 'bound items listed are not the bound ones after %s' % log
            for k in c.bindings.keys():
                if c.bindings[k].is_bindend() != (bnd[c.id][k] is not None) or c.bindings[k].name != k:
                    return 'binding %s reports the wrong state after %s' % (k, log)
        for i in items:
            if set(i.registered_namespaces.keys()) != nss[i.id]:
                return 'namespaces of %s are %s after %s' % (i.tag, list(i.registered_namespaces.keys()), log)
            for k in i.registered_namespaces.keys():
                if i.registered_namespaces[k].tag != k or getattr(i, k) is not i.registered_namespaces[k]:
                    return 'namespace %s is registered under another name after %s' % (k, log)


def sets(seed):
    rng = random.Random(seed)
    k = [Plain('m%d' % j) for j in range(rng.randint(1, 4))]
    dup = rng.random() < 0.3
    mixed = rng.random() < 0.3
    if mixed:
        k.insert(rng.randint(0, len(k)), Other('o'))
        mixed = not isinstance(k[-1], type(k[0])) or any(not isinstance(x, type(k[0])) for x in k)
    if dup:
        k.append(type(k[0])(k[rng.randrange(len(k))].tag))
    s = Subsystem('s')
    want = mixed or dup
    got = refused(lambda: s.register_items(k, tag='st', structure=ItemsStructure.SET), ValueError, TypeError)
    if got != want:
        return 'a set of %s was %s' % ([(type(x).__name__, x.tag) for x in k], 'refused' if got else 'accepted')
    if got and s.registered_items:
        return 'a refused set was registered'
    if not got:
        if [x.tag for x in s.registered_items.values()] != ['SET_st']:
            return 'the set is registered as %s' % [x.tag for x in s.registered_items.values()]
        if not refused(lambda: s.register_items([Plain('n')], tag='st', structure=ItemsStructure.SET)):
            return 'a second set of the same name was accepted'
        if not refused(lambda: ItemSet(k, 'again')):
            return 'items became part of two sets'


def named(seed):
    rng = random.Random(seed)
    a, b = rng.choice(['l', 'r']), rng.choice(['l', 'r'])
    got = refused(lambda: ConnectorTwoWay('c', a, b))
    if got != (a == b):
        return 'two-way connector with sides %s, %s was %s' % (a, b, 'refused' if got else 'accepted')


for k in range(1500 if not THOROUGH else 100000):
    if h.left():
        h.case('history', lambda: history(SEED * 1009 + k), 'seed %d' % (SEED * 1009 + k))
for k in range(200):
    if h.left():
        h.case('sets', lambda: sets(SEED * 1013 + k), 'seed %d' % (SEED * 1013 + k))
for k in range(10):
    h.case('named-sides', lambda: named(k), 'seed %d' % k)
h.done()

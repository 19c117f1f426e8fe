"""Bounded: random lists of events against their functions called as written."""
from hevents import *
import numpy as np
h = H('random models of 1-4 items with overlapping tags and up to 7 state and time events at model and item level, internal and external in any order, '
      'with functions of the same names, closures, local, full and put-together variable names', 25)


def same(a, b):
    return np.allclose(np.asarray(a, dtype=float), np.asarray(b, dtype=float), rtol=1e-9, atol=1e-9)


def one(seed):
    rng = random.Random(seed)
    sp = Events(rng)
    b = Built(sp)
    m, nm = b.m, b.nm
    evs = {'state': [e for e in m.events], 'time': [e for e in m.timestamp_events]}
    want = {k: sorted(e['key'] for e in sp.events if e['kind'] == k) for k in evs}
    for k in evs:
        got = sorted(e.key for e in evs[k] if e.key != 'mock')
        if got != want[k]:
            return '%s events of the model are %r instead of %r\n%s' % (k, got, want[k], b.source)
    order = [e.key for e in evs['state']]
    size = len(m.numba_model.read_variables())
    iface = nm.generate_interface(jit=False)[0] if hasattr(nm, 'generate_interface') else None
    for rep in range(3):
        t = rng.uniform(0, 5)
        vars = np.array([rng.uniform(-5, 5) for _ in range(size)])
        c = nm.state_event_functions(t, vars.copy())
        for i, key in enumerate(order):
            if key == 'mock':
                continue
            e = b.by_key[key]
            w = b.condition(e, t, list(vars))
            if not same(c[i], w):
                return 'condition %d (%s) is %r instead of %r, t=%r vars=%r\n%s' % (i, key, c[i], w, t, list(vars), b.source)
            if nm.state_event_directions[i] != e['direction']:
                return 'direction %d (%s) is %r instead of %r\n%s' % (i, key, nm.state_event_directions[i], e['direction'], b.source)
        if len(c) != len(order):
            return '%d conditions for %d events\n%s' % (len(c), len(order), b.source)
        for kind, f in (('state', nm.state_event_actions), ('time', nm.time_event_actions)):
            for i in range(len(evs[kind]) + 1):
                w = list(vars)
                ev = evs[kind][i] if i < len(evs[kind]) else None
                if ev is not None and ev.key != 'mock' and not b.by_key[ev.key]['external']:
                    b.action(b.by_key[ev.key], t, w)
                got = f(t, vars.copy(), i)
                if not same(got, w):
                    return 'action %d (%s %s) leaves %r instead of %r, t=%r vars=%r\n%s' % (
                        i, kind, ev.key if ev else None, list(got), w, t, list(vars), b.source)
        if iface is not None:
            for i, key in enumerate(order):
                if key == 'mock':
                    continue
                s = nm.state_events[i] if hasattr(nm, 'state_events') else nm._state_events[i]
                y = np.array([rng.uniform(-5, 5) for _ in b.state_slots()])
                w = m.numba_model.read_variables().copy()
                for j, k in enumerate(b.state_slots()):
                    w[k] = y[j]
                r = s.get_event_results(iface, t, y)
                w = b.condition(b.by_key[key], t, list(w))
                if not same(r, w):
                    return 'the solver is given %r instead of %r for event %d (%s), t=%r\n%s' % (r, w, i, key, t, b.source)
                if s.get_event_directions(iface, t, y) != b.by_key[key]['direction']:
                    return 'the solver is given another direction for event %d (%s)\n%s' % (i, key, b.source)


def unknown(seed):
    rng = random.Random(seed)
    sp = Events(rng, unknown=True)
    sp.events[0]['external'] = False
    try:
        b = Built(sp)
    except KeyError:
        return
    return 'an unknown name was accepted\n%s' % b.source


k = 0
while h.left() and k < (400 if not THOROUGH else 4000):
    h.case('events', lambda: one(SEED * 100000 + k), 'seed %d' % (SEED * 100000 + k))
    if k % 6 == 0:
        h.case('unknown-name', lambda: unknown(SEED * 100000 + k), 'seed %d' % (SEED * 100000 + k))
    k += 1
h.done()

"""Bounded: histories of fired events against their actions called as written."""
from hevents import *
import numpy as np
h = H('random models as for C11 with histories of up to 12 fired events and evaluated conditions from random values; the variables are handed out by '
      'reference or as a copy', 30)


def same(a, b):
    return np.allclose(np.asarray(a, dtype=float), np.asarray(b, dtype=float), rtol=1e-12, atol=0, equal_nan=True)


def events(nm, name):
    return list(getattr(nm, name, []))


def one(seed):
    rng = random.Random(seed)
    sp = Events(rng)
    b = Built(sp)
    m, nm, cm = b.m, b.nm, b.m.numba_model
    need(cm, 'read_variables', 'write_variables', 'set_states', 'get_states')
    iface = nm.generate_interface(jit=False)[0]
    evs = [('state', e) for e in events(nm, '_state_events')] + [('time', e) for e in events(nm, '_time_events')]
    evs = [(k, e) for k, e in evs if e.id != 'mock']
    if sorted(e.id for k, e in evs) != sorted(e['key'] for e in sp.events):
        return 'the solver has events %r\n%s' % ([e.id for k, e in evs], b.source)
    if rng.random() < .5:
        read = cm.read_variables
        try:
            cm.read_variables = lambda: np.array(read(), copy=True)
        except AttributeError:
            pass
    slots = [int(s) for s in m.state_idx]
    size = len(cm.read_variables())
    scale = rng.choice([1, 1, 1e-9])
    if rng.random() < .8:
        for i in range(size):
            cm.write_variables(rng.uniform(-5, 5) * scale, i)
        iface.set_states(np.array([rng.uniform(-5, 5) * scale for _ in slots]))
    want = [float(x) for x in cm.read_variables()]
    log = []
    for step in range(rng.randint(1, 12)):
        t = rng.uniform(0, 5)
        y = np.array([rng.choice([want[s], rng.uniform(-5, 5) * scale, want[s] * (1 + 1e-7)]) for s in slots])
        kind, e = rng.choice(evs)
        ev = b.by_key[e.id]
        if kind == 'state' and rng.random() < .4:
            before = np.array(cm.read_variables(), copy=True)
            e.get_event_results(iface, t, y)
            log.append('condition %s at %r' % (e.id, t))
            if not same(cm.read_variables(), before):
                return '%s: evaluating the condition changed the variables from %r to %r\n%s' % (log, list(before), list(cm.read_variables()), b.source)
            continue
        # the solver: the states of the event are set before it is run, and it continues from what the event returns
        iface.set_states(y)
        for j, s in enumerate(slots):
            want[s] = float(y[j])
        log.append('event %s at %r from %r' % (e.id, t, list(want)))
        new = e.run_event_action(iface, t, y)
        b.action(ev, t, want)
        got_states = np.array(new, dtype=float, copy=True)
        if not same(got_states, [want[s] for s in slots]):
            return '%s: the states are %r instead of %r\n%s' % (log, list(got_states), [want[s] for s in slots], b.source)
        got = list(cm.read_variables())
        rest = [i for i in range(size) if i not in slots]
        if not same([got[i] for i in rest], [want[i] for i in rest]):
            return '%s: the variables (besides states) are %r instead of %r\n%s' % (log, [got[i] for i in rest], [want[i] for i in rest], b.source)
        iface.set_states(got_states)
        got = list(cm.read_variables())
        if not same(got, want):
            return '%s: the variables are %r instead of %r\n%s' % (log, got, want, b.source)
        if ev['external']:
            bad = [(f, m.path_to_variable[f].value, want[b.slot[k]]) for k, fs in sp.full.items() for f in fs
                   if not same(m.path_to_variable[f].value, want[b.slot[k]])]
            if bad:
                return '%s: values of the variables of the model (have, expected): %r\n%s' % (log, bad, b.source)


k = 0
while h.left() and k < (600 if not THOROUGH else 6000):
    h.case('history', lambda: one(SEED * 100000 + k), 'seed %d' % (SEED * 100000 + k))
    k += 1
h.done()

"""Bounded: slots, state/derivative order and name-addressed values of real models against an independent evaluation."""
from hlib import *
import numpy as np

h = H('random models of 1-4 items with states, equations, mappings, sums, derivatives with several contributions, repeated sources; '
      'up to 5 global variables; random writes by name, full refreshes and resets', 60)
import hmodel


def case(seed):
    rng = random.Random(seed)
    sp = hmodel.random_spec(rng, n_items=rng.randint(1, 4), n_methods=rng.randint(1, 4), use_t=False)
    extra = hmodel.several_contributions(rng, sp) if seed % 2 else {}
    gv = [('g%d' % j, rng.uniform(-1, 1)) for j in range(rng.choice([0, 0, 1, 2, 4]))]
    m = hmodel.build(sp, global_variables=gv)
    need(m, 'vars_ordered_values', 'state_idx', 'derivatives_idx', 'variables', 'set_variables', 'get_variables', '_reset',
         'update_all_variables', 'update_local_variables', 'var_func', 'var_write')
    I = hmodel.ids(m, sp)
    path = sp.paths()
    slots = dict(m.vars_ordered_values)
    if sorted(slots.values()) != list(range(len(slots))):
        return 'slots not dense: %r' % (sorted(slots.values()),)
    if list(slots.values()) != list(range(len(slots))):
        return 'slots not in variable order'
    for k, i in I.items():
        if i not in slots:
            return '%r has no slot' % (k,)
    for i, v in m.variables.items():
        if v.global_var == (i in slots):
            return '%r: global %r, slot %r' % (v.tag, v.global_var, slots.get(i))
    for i, s in slots.items():
        if m.variables[i].llvm_idx != s:
            return 'variable knows another slot'
    inv = {slots[i]: k for k, i in I.items()}
    st = [inv.get(int(s)) for s in m.state_idx]
    de = [inv.get(int(s)) for s in m.derivatives_idx]
    if sorted(st) != sorted(sp.states):
        return 'states %r, declared %r' % (st, sp.states)
    if de != [(t, n + '_dot') for t, n in st]:
        return 'derivative indices %r for states %r' % (de, st)
    if len(slots) == len(I) and list(m.state_idx) != sorted(m.state_idx):
        return 'states not in slot order'
    if list(np.array(m.states_as_vector)) != [m.var_func()[slots[I[k]]] for k in st]:
        return 'states_as_vector'
    # the kernel pairs state i with derivative i
    base = hmodel.given_values(sp)
    for rep in range(2):
        y = {k: rng.uniform(-2, 2) for k in st}
        g = dict(base)
        g.update(y)
        want = sp.evaluate(g)
        got = np.array(m.compiled_compute(np.array([y[k] for k in st]), np.array([0.0] + [v for n, v in gv])))
        for j, k in enumerate(st):
            w = want[k[0], k[1] + '_dot']
            if abs(got[j] - w) > 1e-9 * (1 + abs(w)):
                return 'entry %d of the kernel result is %r, derivative of %r is %r' % (j, got[j], k, w)
            if m.var_func()[slots[I[k[0], k[1] + '_dot']]] != got[j]:
                return 'derivative of %r is not in its own slot' % (k,)
        vals = m.get_variables()
        for k, i in I.items():
            if vals[path[k]] != m.var_func()[slots[i]]:
                return 'get_variables %r' % (k,)
            if abs(vals[path[k]] - want[k]) > 1e-9 * (1 + abs(want[k])):
                return 'get_variables %r is %r, expected %r' % (k, vals[path[k]], want[k])
    # values by name
    m2 = hmodel.build(sp, global_variables=gv)
    I2 = hmodel.ids(m2, sp)
    sl = m2.vars_ordered_values

    def state():
        return {k: (float(m2.var_func()[sl[i]]), m2.variables[i].value) for k, i in I2.items()}
    first = state()
    init = m2.get_variables_initial_values()
    for k in I2:
        decl = {(t, n): i for t, it in sp.items.items() for n, kind, i in it['vars'] if kind != 'dot'}
        if k in decl and (init[path[k]] != decl[k] or first[k] != (decl[k], decl[k])):
            return 'initial value of %r: %r, slot/variable %r, declared %r' % (k, init[path[k]], first[k], decl[k])
    for rep in range(6):
        before = state()
        ch = {k: rng.choice([0.0, -1.5, rng.uniform(-9, 9)]) for k in rng.sample(list(I2), rng.randint(0, len(I2)))}
        how = rng.choice(['set', 'update', 'full', 'local', 'reset', 'value'])
        want = dict(before)
        if how == 'set':
            m2.set_variables({path[k]: v for k, v in ch.items()})
            want.update({k: (v, v) for k, v in ch.items()})
        elif how == 'update':
            m2.update_variables({path[k]: v for k, v in ch.items()})
            want.update({k: (v, before[k][1]) for k, v in ch.items()})
        elif how == 'value':
            for k, v in ch.items():
                m2.variables[I2[k]].value = v
            want.update({k: (v, v) for k, v in ch.items()})
        elif how == 'full':
            m2.update_variables({path[k]: v for k, v in ch.items()})
            m2.update_all_variables()
            want = {k: (b, b) for k, (a, b) in before.items()}
        elif how == 'local':
            m2.update_variables({path[k]: v for k, v in ch.items()})
            m2.numba_model = m2._generate_compiled_model(0.0, 5)
            m2.update_local_variables()
            want.update({k: (v, v) for k, v in ch.items()})
            want = {k: (a, a) for k, (a, b) in want.items()}
        else:
            m2._reset()
            want = {k: (init[path[k]],) * 2 for k in before}
        now = state()
        bad = [k for k in now if now[k] != want[k]]
        if bad:
            return '%s %r: %r is (slot, variable) %r, expected %r' % (how, {path[k]: v for k, v in ch.items()}, bad[0], now[bad[0]], want[bad[0]])


for seed in range(250 if not THOROUGH else 4000):
    if not h.left():
        break
    s = SEED * 100000 + seed
    h.case('values-by-name', lambda: case(s), {'model_seed': s})
h.done()

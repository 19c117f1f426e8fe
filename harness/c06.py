"""Bounded: real CompiledModel and solver interface on random models against an independent evaluation."""
from hlib import *
import numpy as np
import random

h = H('random models of 1-4 items, 1-8 states, equations, mappings and sums; random states, times, step sizes and '
      'multistep weights', 60)
import hmodel
from numerous.engine.simulation.solver_interface import generate_numerous_engine_solver_model


def close(a, b, tol=1e-9):
    a, b = np.asarray(a, float), np.asarray(b, float)
    return a.shape == b.shape and bool(np.all(np.abs(a - b) <= tol * (1 + np.abs(b))))


def case(seed):
    rng = random.Random(seed)
    sp = hmodel.random_spec(rng, n_items=rng.randint(1, 4), n_methods=rng.randint(1, 4))
    m = hmodel.build(sp)
    I = hmodel.ids(m, sp)
    nm = m._generate_compiled_model(0.0, 10)
    need(nm, 'get_states', 'set_states', 'func', 'vectorized_full_jacobian', 'get_g', 'read_variables')
    inv = {m.vars_ordered_values[i]: k for k, i in I.items()}
    st = [inv[int(s)] for s in m.state_idx]
    n = len(st)
    g0 = hmodel.given_values(sp)

    def deriv(y, t):
        g = dict(g0)
        g.update({k: y[j] for j, k in enumerate(st)})
        v = sp.evaluate(g, t)
        return np.array([v[k[0], k[1] + '_dot'] for k in st])
    for rep in range(4):
        t = rng.choice([rng.uniform(-2, 5), 0.0, -1.0])
        y = np.array([rng.uniform(-2, 2) for _ in range(n)])
        if rep == 2:
            y = np.full(n, rng.choice([0.0, 1.0, -1.0, 1e-9, 1e4]))
        if rep == 3:
            y = np.array([float(rng.choice([0, 0, 1, -1])) for _ in range(n)])
        before = np.array(nm.read_variables()).copy()
        nm.set_states(y)
        after = np.array(nm.read_variables()).copy()
        if list(nm.get_states()) != list(y):
            return 'get_states after set_states(%r) is %r' % (list(y), list(nm.get_states()))
        for s in range(len(after)):
            if s not in set(m.state_idx) and after[s] != before[s]:
                return 'set_states changed %r' % (inv.get(s, s),)
        gl = np.array(nm.global_vars).copy()
        d = np.array(nm.func(t, y)).copy()
        if not close(d, deriv(y, t)):
            return 'func(%r,%r) is %r, expected %r' % (t, list(y), list(d), list(deriv(y, t)))
        if nm.global_vars[0] != t or list(nm.global_vars[1:]) != list(gl[1:]):
            return 'time or other globals wrong after func'
        hh = 1e-8
        f0 = deriv(y, t)
        want = np.zeros((n, n))
        for j in range(n):
            yj = y.copy()
            yj[j] += hh
            want[:, j] = (deriv(yj, t) - f0) / hh
        J = np.array(nm.vectorized_full_jacobian(t, y.copy(), 0.1))
        if J.shape != (n, n) or not np.all(np.abs(J - want) <= 1e-5 + 1e-6 * np.abs(want)):
            return 'Jacobian %r, expected %r' % (J.tolist(), want.tolist())
        order = rng.randint(1, 4)
        yold = np.array([[rng.uniform(-1, 1) for _ in range(n)] for _ in range(5)])
        a = np.array([[rng.uniform(-1, 1) for _ in range(5)] for _ in range(5)])
        af = np.array([rng.uniform(0.1, 1) for _ in range(5)])
        dt = rng.uniform(0.01, 1)
        gg, f = nm.get_g(t, yold, y, dt, order, a, af)
        wg = y + sum(a[order - 1][i] * yold[i] for i in range(order)) - af[order - 1] * dt * f0
        if not close(f, f0) or not close(gg, wg):
            return 'get_g residual %r, expected %r (order %d)' % (list(gg), list(wg), order)
        wp = iface(m)
        if wp is not None:
            y2 = np.array([rng.uniform(-2, 2) for _ in range(n)])
            wp.set_states(y2)
            if not close(wp.get_states(), y2, 0) or not close(wp.get_deriv(t, y2), deriv(y2, t), 1e-9):
                return 'interface states/derivative differ from the model'


def iface(m):
    try:
        sm, _ = generate_numerous_engine_solver_model(m)
        return sm.generate_interface(False)[0]._compiled_model
    except Exception as e:
        raise Skip('no solver interface: %s' % e)


for seed in range(250 if not THOROUGH else 4000):
    if not h.left():
        break
    h.case('states-derivatives', lambda: case(SEED * 100000 + seed), {'model_seed': SEED * 100000 + seed})
h.done()

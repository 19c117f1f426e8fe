"""Bounded (JIT: on): generated compiled kernels run against a reference, and vectorised sets and globals in real models."""
from hlib import *
import numpy as np

h = H('random kernel programs (up to 4 states, 8 parameters, 2 sets, 3 globals, 7 statements with up to 5 arguments, any slot order) compiled and run twice; '
      'models of sets and of global variables compiled and compared', 70)
import hkern
from numerous.engine.model.lowering import llvm_builder as L
from numerous.engine.model.lowering.utils import VariableArgument

B = L.LLVMBuilder
need(B, 'add_mapping', 'add_call', 'add_set_call', 'generate')


def kernel(seed):
    rng = random.Random(seed)
    p = hkern.Program(rng, states_are_targets=False)
    b = B(np.array(p.init), dict(p.slot), dict(sorted(p.globals.items(), key=lambda x: x[1])), list(p.states), list(p.derivs))
    names = []
    for k in range(len(p.fns)):
        f, sig = p.llvm_fn(k, rng)
        names.append(list(b.add_external_function(f, sig, p.fns[k][0], list(p.fns[k][1])).values())[0])
    for op in p.ops:
        if op[0] == 'map':
            b.add_mapping([VariableArgument(x, False) for x in op[1]], [VariableArgument(x, False) for x in op[2]])
        elif op[0] == 'call':
            b.add_call(names[op[1]], [VariableArgument(x, isg) for x, isg in op[2]], list(op[3]))
        else:
            b.add_set_call(names[op[1]], [list(r) for r in op[2]], list(op[3]))
    f, read, write = b.generate()
    mem = list(p.init)
    if list(read()) != mem:
        return 'initial values %r' % list(read())
    for i in range(2):
        y = [float(rng.randint(-9, 9)) for _ in p.states]
        g = [float(rng.randint(-9, 9)) for _ in p.globals]
        if rng.random() < .5:
            j = rng.randrange(len(mem))
            mem[j] = 7.0 + i
            write(7.0 + i, j)
        ya, ga = np.array(y), np.array(g)
        d = f(ya, ga)
        mem, want = p.run(mem, y, g)
        if list(d) != want:
            return 'derivatives %r, expected %r for %s at %r, %r' % (list(d), want, p.describe(), y, g)
        if list(read()) != mem:
            bad = [(n, read()[s], mem[s]) for n, s in p.slot.items() if read()[s] != mem[s]]
            return 'slots (name, value, expected) %r for %s at %r, %r' % (bad, p.describe(), y, g)
        if list(ya) != y or list(ga) != g:
            return 'the states or globals passed in were changed by %s' % p.describe()


for s in range(10 ** 6):
    if not h.left() or s > (2000 if THOROUGH else 300):
        break
    if s % (25 if THOROUGH else 40) == 3:
        h.case('set-%d' % s, lambda s=s: hkern.set_model(SEED * 5003 + s, True), 'set model %d' % s)
        h.case('globals-%d' % s, lambda s=s: hkern.globals_model(SEED * 7001 + s, True), 'model with globals %d' % s)
    h.case('kernel-%d' % s, lambda s=s: kernel(SEED * 100003 + s), 'kernel program %d' % s)
h.done()

"""Bounded: generated interpreted kernels run against a reference, and vectorised sets in real models."""
from hlib import *
import numpy as np

h = H('random kernel programs (up to 4 states, 8 parameters, 2 sets, 3 globals, 7 statements with up to 5 arguments, any slot order) run twice; sets of 1-5 items with up to 4 variables', 60)
import hkern
from numerous.engine.model.utils import Imports
from numerous.engine.model.lowering.ast_builder import ASTBuilder
from numerous.engine.model.lowering.utils import VariableArgument

need(ASTBuilder, 'add_mapping', 'add_call', 'add_set_call', 'generate')
imports = Imports()
imports.add_as_import('numpy', 'np')


def kernel(seed):
    rng = random.Random(seed)
    p = hkern.Program(rng)
    b = ASTBuilder(np.array(p.init), dict(p.slot), dict(p.globals), list(p.states), list(p.derivs))
    for k in range(len(p.fns)):
        b.add_external_function(p.ast_fn(k), None, p.fns[k][0], list(p.fns[k][1]))
    for op in p.ops:
        if op[0] == 'map':
            b.add_mapping([VariableArgument(x, False) for x in op[1]], [VariableArgument(x, False) for x in op[2]])
        elif op[0] == 'call':
            b.add_call('f%d' % op[1], [VariableArgument(x, isg) for x, isg in op[2]], list(op[3]))
        else:
            b.add_set_call('f%d' % op[1], [list(r) for r in op[2]], list(op[3]))
    f, read, write = b.generate(imports)
    mem = list(p.init)
    if list(read()) != mem:
        return 'initial values %r' % list(read())
    for i in range(2):
        y = [float(rng.randint(-9, 9)) for _ in p.states]
        g = [float(rng.randint(-9, 9)) for _ in p.globals]
        if rng.random() < .5:
            j = rng.randrange(len(mem))
            mem[j] = 7.0 + i
            write(7.0 + i, j)
        try:
            d = f(np.array(y), np.array(g))
        except Exception as ex:
            return 'kernel raised %r for %s' % (ex, p.describe())
        mem, want = p.run(mem, y, g)
        if list(d) != want:
            return 'derivatives %r, expected %r for %s at %r, %r' % (list(d), want, p.describe(), y, g)
        if list(read()) != mem:
            bad = [(n, read()[s], mem[s]) for n, s in p.slot.items() if read()[s] != mem[s]]
            return 'slots (name, value, expected) %r for %s at %r, %r' % (bad, p.describe(), y, g)


for s in range(10 ** 6):
    if not h.left() or s > (20000 if THOROUGH else 3000):
        break
    h.case('kernel-%d' % s, lambda s=s: kernel(SEED * 100003 + s), 'kernel program %d' % s)
    if s % 40 == 0:
        h.case('globals-%d' % s, lambda s=s: hkern.globals_model(SEED * 7001 + s, False), 'model with globals %d' % s)
        h.case('set-%d' % s, lambda s=s: hkern.set_model(SEED * 5003 + s, False), 'set model %d' % s)
h.done()

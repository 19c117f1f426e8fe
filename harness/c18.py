"""Bounded: random models with several contributions to one variable, evaluated and compared with the plain sum."""
from hlib import *
h = H('random models of up to 3 groups (single items or sets of up to 4 elements), up to 6 result columns each, equations giving one or several results, up to 2 equations and several mappings per variable', 60)
import hsum

for s in range(10 ** 6):
    if not h.left() or s > (4000 if THOROUGH else 700):
        break
    h.case('items-%d' % s if s % 3 == 0 else 'sets-%d' % s, lambda s=s: hsum.check(SEED * 100003 + s, False, s % 3 != 0), 'contribution model %d' % s)
h.done()

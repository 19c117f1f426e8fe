"""Symbolic values, storage locations and z3 term helpers."""
import fractions
import z3
from .types import *


class Unsupported(Exception):
    """The construct is outside the verifier's reach (never reported as a violation)."""


class PathEnd(Exception):
    """This execution path ends here (loop iteration checked, contradiction, ...)."""


class NeedBranch(Exception):
    pass


class PyRaise(Exception):
    def __init__(self, cls, args=(), where=''):
        self.cls, self.eargs, self.where = cls, args, where


class ReturnEx(Exception):
    def __init__(self, v):
        self.v = v


class BreakEx(Exception):
    pass


class ContinueEx(Exception):
    pass


# ---------------------------------------------------------------- terms
def is_store(a):
    return z3.is_app(a) and a.decl().kind() == z3.Z3_OP_STORE


def sel(a, i):
    """select with beta reduction and read-over-write pushed to the leaves"""
    if z3.is_quantifier(a) and a.is_lambda():
        return z3.simplify(z3.substitute_vars(a.body(), i)) if False else z3.substitute_vars(a.body(), i)
    if z3.is_app(a):
        k = a.decl().kind()
        if k == z3.Z3_OP_STORE:
            b, j, v = a.children()
            if j.eq(i):
                return v
            d = decide_eq(j, i)
            if d is True:
                return v
            if d is False:
                return sel(b, i)
            return z3.If(j == i, v, sel(b, i))
        if k == z3.Z3_OP_ITE:
            c, x, y = a.children()
            return z3.If(c, sel(x, i), sel(y, i))
        if k == z3.Z3_OP_CONST_ARRAY:
            return a.arg(0)
    return z3.Select(a, i)


def decide_eq(a, b):
    if a.sort() == z3.IntSort():
        d = z3.simplify(a - b)
        if z3.is_int_value(d):
            return d.as_long() == 0
    elif a.sort() == StrSort and a.num_args() == 0 and b.num_args() == 0 and \
            a.decl().name().startswith('lit:') and b.decl().name().startswith('lit:'):
        return a.eq(b)
    return None


def sto(a, i, v):
    return z3.Store(a, i, v)


def simp(t):
    return z3.simplify(t)


def as_bool(t):
    """python bool for constant truth values, else the term"""
    if isinstance(t, bool):
        return t
    s = z3.simplify(t)
    if z3.is_true(s):
        return True
    if z3.is_false(s):
        return False
    return t


def b(t):
    return z3.BoolVal(t) if isinstance(t, bool) else t


def And_(*xs):
    xs = [x for x in xs if x is not True]
    if any(x is False for x in xs):
        return False
    if not xs:
        return True
    return xs[0] if len(xs) == 1 else z3.And(*xs)


def Or_(*xs):
    xs = [x for x in xs if x is not False]
    if any(x is True for x in xs):
        return True
    if not xs:
        return False
    return xs[0] if len(xs) == 1 else z3.Or(*xs)


def Not_(x):
    return (not x) if isinstance(x, bool) else z3.Not(x)


def Implies_(a, c):
    if a is True:
        return c
    if a is False or c is True:
        return True
    return z3.Implies(a, b(c))


def Ite_(c, x, y):
    if c is True:
        return x
    if c is False:
        return y
    if x.eq(y):
        return x
    return z3.If(c, x, y)


# ---------------------------------------------------------------- values
class SV:
    """symbolic scalar"""
    __slots__ = ('t', 'z')

    def __init__(self, t, z):
        self.t, self.z = t, z

    def __repr__(self):
        return 'SV(%r,%s)' % (self.t, str(self.z)[:60])


class OptV:
    """None when `none` holds, else v"""
    __slots__ = ('none', 'v', 't')

    def __init__(self, none, v, t):
        self.none, self.v, self.t = none, v, t


class EnumV:
    __slots__ = ('cls', 'name', 'value')

    def __init__(self, cls, name, value):
        self.cls, self.name, self.value = cls, name, value

    def __repr__(self):
        return '%s.%s' % (self.cls, self.name)


class ObjV:
    """object with python-side identity"""
    __slots__ = ('addr',)

    def __init__(self, addr):
        self.addr = addr

    def __eq__(self, o):
        return isinstance(o, ObjV) and o.addr == self.addr

    def __hash__(self):
        return hash(('obj', self.addr))

    def __repr__(self):
        return 'ObjV#%d' % self.addr


class Handle:
    """container stored at a location"""
    __slots__ = ('loc',)

    def __init__(self, loc):
        self.loc = loc

    def __repr__(self):
        return 'Handle(%r)' % (self.loc,)


class Root:
    __slots__ = ('addr',)

    def __init__(self, addr):
        self.addr = addr

    def __repr__(self):
        return 'Root#%d' % self.addr


class ElemLoc:
    """value part of an element of a container (list/array row/dict value)"""
    __slots__ = ('parent', 'key', 't')

    def __init__(self, parent, key, t):
        self.parent, self.key, self.t = parent, key, t   # parent: loc of container, key: z3 term


class FieldLoc:
    __slots__ = ('cls', 'field', 'ref', 't')

    def __init__(self, cls, field, ref, t):
        self.cls, self.field, self.ref, self.t = cls, field, ref, t


class SubLoc:
    """components lo:hi of another location"""
    __slots__ = ('base', 'lo', 'hi', 't')

    def __init__(self, base, lo, hi, t):
        self.base, self.lo, self.hi, self.t = base, lo, hi, t


class ConstLoc:
    """immutable snapshot"""
    __slots__ = ('t', 'terms')

    def __init__(self, t, terms):
        self.t, self.terms = t, terms


class LazyArr:
    """numpy rvalue: shape (python ints or terms) and element function"""
    __slots__ = ('e', 'shape', 'fn')

    def __init__(self, e, shape, fn):
        self.e, self.shape, self.fn = e, list(shape), fn


class ArrView:
    """numpy view of array handle: sels per base axis ('i', term) | ('s', start, length)"""
    __slots__ = ('base', 'sels')

    def __init__(self, base, sels):
        self.base, self.sels = base, sels


class Seq:
    """finite sequence evaluated on demand"""
    __slots__ = ('n', 'get', 'src', 'lazy')

    def __init__(self, n, get, src=None):
        self.n, self.get, self.src = n, get, src


class FuncV:
    __slots__ = ('node', 'mod', 'frame', 'qual', 'cls', 'bound', 'kind')

    def __init__(self, node, mod, frame, qual, cls=None, bound=None, kind='function'):
        self.node, self.mod, self.frame, self.qual, self.cls, self.bound, self.kind = \
            node, mod, frame, qual, cls, bound, kind

    def bind(self, obj):
        return FuncV(self.node, self.mod, self.frame, self.qual, self.cls, obj, self.kind)

    def __repr__(self):
        return 'Func(%s)' % self.qual


class ClassV:
    __slots__ = ('name', 'mod', 'node', 'frame')

    def __init__(self, name, mod, node, frame=None):
        self.name, self.mod, self.node, self.frame = name, mod, node, frame

    def __repr__(self):
        return 'Class(%s)' % self.name


class ModV:
    __slots__ = ('mod',)

    def __init__(self, mod):
        self.mod = mod


class Ext:
    """name imported from a library; dotted path"""
    __slots__ = ('path', 'bound')

    def __init__(self, path, bound=None):
        self.path, self.bound = path, bound

    def __repr__(self):
        return 'Ext(%s)' % self.path


class ExtObj:
    """trusted external callable/object with its own (assumed) contract"""
    __slots__ = ('contract', 'bound')

    def __init__(self, contract, bound=None):
        self.contract, self.bound = contract, bound


class Builtin:
    __slots__ = ('name', 'fn')

    def __init__(self, name, fn):
        self.name, self.fn = name, fn

    def __repr__(self):
        return 'Builtin(%s)' % self.name


class Method:
    """method of a built-in container/string/array value"""
    __slots__ = ('recv', 'name')

    def __init__(self, recv, name):
        self.recv, self.name = recv, name


class SliceV:
    __slots__ = ('lo', 'hi', 'step')

    def __init__(self, lo, hi, step):
        self.lo, self.hi, self.step = lo, hi, step


class PyCell:
    """container with python-side structure"""
    __slots__ = ('kind', 'items')

    def __init__(self, kind, items):
        self.kind, self.items = kind, items

    def copy(self):
        return PyCell(self.kind, list(self.items))


class SymCell:
    __slots__ = ('t', 'terms')

    def __init__(self, t, terms):
        self.t, self.terms = t, tuple(terms)

    def copy(self):
        return self


class Forward:
    """the container moved to another location"""
    __slots__ = ('loc',)

    def __init__(self, loc):
        self.loc = loc

    def copy(self):
        return self


class Undefined:
    def __repr__(self):
        return '<undefined>'


UNDEF = Undefined()


def real_val(x):
    if isinstance(x, bool):
        x = int(x)
    if isinstance(x, int):
        return z3.RealVal(x)
    if x != x:
        return z3.Const('py:nan', z3.RealSort())
    if x in (float('inf'), float('-inf')):
        return z3.Const('py:%s' % ('inf' if x > 0 else 'ninf'), z3.RealSort())
    f = fractions.Fraction(repr(x))
    return z3.Q(f.numerator, f.denominator)


_lits = {}


def str_lit(s):
    if s not in _lits:
        _lits[s] = z3.Const('lit:%d:%s' % (len(_lits), ''.join(c if c.isalnum() or c in '._-' else '_' for c in s)),
                            StrSort)
    return _lits[s]


cat_f = z3.Function('str_cat', StrSort, StrSort, StrSort)

"""Static types of symbolic values and their flattening to z3 terms."""
import z3

StrSort = z3.DeclareSort('Str')
NodeSort = z3.DeclareSort('Node')      # opaque immutable values (syntax-tree nodes, IR values, ...)
USort = z3.DeclareSort('U')            # everything else

_Any = z3.Datatype('Any')
_Any.declare('ANone')
_Any.declare('AInt', ('a_int', z3.IntSort()))
_Any.declare('AReal', ('a_real', z3.RealSort()))
_Any.declare('ABool', ('a_bool', z3.BoolSort()))
_Any.declare('AStr', ('a_str', StrSort))
_Any.declare('ANode', ('a_node', NodeSort))
_Any.declare('ARef', ('a_cls', z3.IntSort()), ('a_ref', z3.IntSort()))
_Any.declare('AOther', ('a_u', USort))
AnySort = _Any.create()


class T:
    def __eq__(self, o):
        return type(self) is type(o) and self.__dict__ == o.__dict__

    def __hash__(self):
        return hash(repr(self))

    def __repr__(self):
        return type(self).__name__ + (repr(tuple(self.__dict__.values())) if self.__dict__ else '')


class TScalar(T):
    pass


class TInt(TScalar):
    sort = z3.IntSort()


class TReal(TScalar):
    sort = z3.RealSort()


class TBool(TScalar):
    sort = z3.BoolSort()


class TStr(TScalar):
    sort = StrSort


class TAny(TScalar):
    sort = AnySort


class TNode(TScalar):
    sort = NodeSort


class TNone(T):
    pass


class TEnum(TScalar):
    sort = z3.IntSort()

    def __init__(self, cls):
        self.cls = cls


class TRef(TScalar):
    """Reference to an instance of a class of which there may be unboundedly many."""
    sort = z3.IntSort()

    def __init__(self, cls):
        self.cls = cls


class TOpt(T):
    lit = None                  # what stands in the place of None (a string), for values such as ':' or a list

    def __init__(self, t, lit=None):
        self.t = t
        if lit is not None:
            self.lit = lit


class TTuple(T):
    def __init__(self, *ts):
        self.ts = tuple(ts)


class TList(T):
    def __init__(self, e):
        self.e = e


class TSet(T):
    def __init__(self, k):
        self.k = k


class TDict(T):
    def __init__(self, k, v):
        self.k = k
        self.v = v


class TArr(T):
    def __init__(self, e, nd=1):
        self.e = e
        self.nd = nd


class TObj(T):
    """A single object with python-side structure; fields: name -> T (or a python constant)."""

    def __init__(self, cls, **fields):
        self.cls = cls
        self.fields = fields

    def __hash__(self):
        return hash(self.cls)


class TFun(T):
    """An uninterpreted pure function value."""

    def __init__(self, name, ret):
        self.name = name
        self.ret = ret


class TConst(T):
    """A fixed python-side value (function, class, module, literal)."""

    def __init__(self, v):
        self.v = v

    def __hash__(self):
        return id(self.v)


Int, Real, Bool, Str, Any, NodeT, NoneT = TInt(), TReal(), TBool(), TStr(), TAny(), TNode(), TNone()


def nest(n, s):
    for _ in range(n):
        s = z3.ArraySort(z3.IntSort(), s)
    return s


_pair_sorts = {}


def key_sort(t):
    """Single z3 sort used when t is a dictionary / set key."""
    ss = sorts(t)
    if len(ss) == 1:
        return ss[0]
    k = tuple(s.name() if not isinstance(s, z3.ArraySortRef) else str(s) for s in ss)
    if k not in _pair_sorts:
        d = z3.Datatype('Tup_' + '_'.join(k))
        d.declare('mk', *[('c%d' % i, s) for i, s in enumerate(ss)])
        _pair_sorts[k] = d.create()
    return _pair_sorts[k]


def sorts(t):
    if isinstance(t, TScalar):
        return [t.sort]
    if isinstance(t, TNone):
        return []
    if isinstance(t, TOpt):
        return [z3.BoolSort()] + sorts(t.t)
    if isinstance(t, TTuple):
        return [s for x in t.ts for s in sorts(x)]
    if isinstance(t, TList):
        return [z3.IntSort()] + [z3.ArraySort(z3.IntSort(), s) for s in sorts(t.e)]
    if isinstance(t, TSet):
        k = key_sort(t.k)
        return [z3.IntSort(), z3.ArraySort(k, z3.BoolSort()), z3.ArraySort(z3.IntSort(), k),
                z3.ArraySort(k, z3.IntSort())]
    if isinstance(t, TDict):
        k = key_sort(t.k)
        return [z3.IntSort(), z3.ArraySort(k, z3.BoolSort()), z3.ArraySort(z3.IntSort(), k),
                z3.ArraySort(k, z3.IntSort())] + [z3.ArraySort(k, s) for s in sorts(t.v)]
    if isinstance(t, TArr):
        return [z3.IntSort()] * t.nd + [nest(t.nd, sorts(t.e)[0])]
    raise TypeError('no flat sorts for %r' % (t,))


def is_container(t):
    return isinstance(t, (TList, TSet, TDict, TArr))

"""Expressions, statements, calls and loops."""
import ast

from .interp import *

PURE_CALLS = {'len', 'isinstance', 'abs', 'min', 'max', 'int', 'float', 'str', 'bool', 'hasattr', 'type', 'any', 'all'}
EXC = {'ValueError', 'KeyError', 'IndexError', 'TypeError', 'RecursionError', 'AttributeError', 'Exception',
       'AssertionError', 'NotImplementedError', 'RuntimeError', 'StopIteration', 'ImportError', 'ZeroDivisionError',
       'FileNotFoundError', 'OSError', 'LookupError', 'NameError', 'StopIteration', 'DeprecationWarning', 'Warning'}
EXC_PARENT = {'KeyError': 'LookupError', 'IndexError': 'LookupError', 'LookupError': 'Exception',
              'RecursionError': 'RuntimeError', 'NotImplementedError': 'RuntimeError', 'RuntimeError': 'Exception',
              'ZeroDivisionError': 'Exception', 'FileNotFoundError': 'OSError', 'OSError': 'Exception'}


def exc_isa(a, c):
    while a is not None:
        if a == c:
            return True
        a = EXC_PARENT.get(a, 'Exception' if a not in ('Exception', 'BaseException') else
                           ('BaseException' if a == 'Exception' else None))
    return False


def simple_pure(e):
    for n in ast.walk(e):
        if isinstance(n, (ast.NamedExpr, ast.Yield, ast.Await, ast.Lambda)):
            return False
        if isinstance(n, ast.Call):
            if isinstance(n.func, ast.Name) and n.func.id in PURE_CALLS:
                continue
            if isinstance(n.func, ast.Attribute) and n.func.attr in ('keys', 'values', 'items', 'get', 'startswith',
                                                                    'endswith', 'any', 'all', 'find', 'count'):
                continue
            return False
    return True


class Eval(Core):
    # ------------------------------------------------------------ names
    @property
    def frame(self):
        return self.callstack[-1]

    def env(self, fr=None):
        return self.st.frames[(fr or self.frame).fid]

    def new_frame(self, mod, parent, qual, cls=None, locals_t=None):
        self.fidc += 1
        f = Frame(self.fidc, mod, parent, qual, cls, locals_t)
        self.st.frames[f.fid] = {}
        return f

    def lookup(self, name):
        f = self.frame
        while f is not None:
            e = self.st.frames[f.fid]
            if name in e:
                v = e[name]
                if v is POISON:
                    raise Unsupported('name %s has values of several types' % name)
                if isinstance(v, MaybeUnbound):
                    self.oblige('variable-%s-is-bound' % name, v.cond)
                    return v.v
                return v
            f = f.parent
        if name in self.spec_env:
            return self.spec_env[name]
        v = self.global_name(self.frame.mod, name)
        if v is not None:
            return v[0]
        if name == 'object':
            return Ext('object')
        raise Unsupported('unknown name %s in %s' % (name, self.frame.qual))

    spec_env = {}

    def global_name(self, mod, name):
        if mod is not None:
            if (mod.name, name) in self.reg.globals:
                return (self.reg.globals[(mod.name, name)],)
            r = self.prog.find(mod.name, name)
            if r is not None:
                return (self.resolved(r, name),)
        bi = self.builtins().get(name)
        if bi is not None:
            return (bi,)
        if name in EXC:
            return (Ext('builtins.' + name),)
        return None

    def resolved(self, r, name):
        if r[0] == 'ext':
            return self.ext(r[1])
        if r[0] == 'mod':
            return ModV(r[1])
        m, d = r
        if (m.name, name) in self.reg.globals:
            return self.reg.globals[(m.name, name)]
        if isinstance(d, ast.FunctionDef):
            return FuncV(d, m, None, '%s:%s' % (m.name, d.name))
        if isinstance(d, ast.ClassDef):
            return ClassV(d.name, m, d)
        if isinstance(d, tuple) and d[0] == 'assign':
            if name not in m.cache:
                f = self.new_frame(m, None, m.name + ':<module>')
                self.callstack.append(f)
                try:
                    v = self.ev(d[1])
                finally:
                    self.callstack.pop()
                if isinstance(v, (ObjV, Handle)):
                    return v          # depends on this run's state: not cached
                m.cache[name] = v
            return m.cache[name]
        raise Unsupported('global %s' % name)

    def ext(self, path):
        if path in ('numpy.nan', 'numpy.NaN', 'math.nan', 'np.nan') and getattr(self.reg, 'nan_value', False):
            return float('nan')
        if path in ('numpy.inf', 'math.inf', 'numpy.Inf'):
            self.assumed.add('infinity is an arbitrary real number of which nothing is known')
            return SV(Real, z3.Const('py:inf', z3.RealSort()))
        if path in self.reg.externals:
            return ExtObj(self.reg.externals[path])
        return Ext(path)

    def bind_name(self, name, v, fr=None):
        fr = fr or self.frame
        if name in fr.nonlocals:
            p = fr.parent
            while p is not None and name not in self.st.frames[p.fid]:
                p = p.parent
            fr = p or fr
        if name in fr.locals_t:
            v = self.adopt(v, fr.locals_t[name])
        v = self.settle(v)
        self.note_write(('name', fr.fid, name), self.type_of(v))
        self.st.frames[fr.fid][name] = v

    def adopt(self, v, t):
        """give a freshly built value its declared type"""
        if isinstance(v, Handle):
            c = self.cell(v)
            if c is not None and is_container(t) and not isinstance(t, TArr):
                self.promote(v, t)
        return v

    def settle(self, v):
        """numpy results become arrays in memory when bound"""
        if isinstance(v, LazyArr):
            return self.new_cell(TArr(v.e, len(v.shape)), [iz(d) for d in v.shape] + [self.lam_nd(v, v.e)])
        if isinstance(v, ArrView):
            return v
        return v

    # ------------------------------------------------------------ truth and comparison
    def truth(self, v):
        if v is None:
            return False
        if isinstance(v, (bool, int, float, str)):
            return bool(v)
        if isinstance(v, SV):
            if isinstance(v.t, TBool):
                return as_bool(v.z)
            if isinstance(v.t, TInt):
                return as_bool(v.z != 0)
            if isinstance(v.t, TReal):
                return as_bool(v.z != 0)
            if isinstance(v.t, TStr):
                return as_bool(v.z != str_lit(''))
            if isinstance(v.t, TRef):
                return True
            if isinstance(v.t, TNode):
                return True
            if isinstance(v.t, TEnum):
                mem = self.enum_members(v.t.cls)
                return as_bool(v.z != 0) if v.t.cls in self.reg.int_enums else True
            if isinstance(v.t, TAny):
                z = v.z
                A = AnySort
                return as_bool(z3.And(z3.Not(A.is_ANone(z)),
                                      z3.Implies(A.is_AInt(z), A.a_int(z) != 0),
                                      z3.Implies(A.is_AReal(z), A.a_real(z) != 0),
                                      z3.Implies(A.is_ABool(z), A.a_bool(z)),
                                      z3.Implies(A.is_AStr(z), A.a_str(z) != str_lit(''))))
        if isinstance(v, OptV):
            if v.t is not None and v.t.lit:
                return Or_(v.none, self.truth(v.v))
            return And_(Not_(v.none), self.truth(v.v))
        if isinstance(v, tuple):
            return len(v) > 0
        if isinstance(v, Handle):
            c = self.cell(v)
            if c is not None:
                return len(c.items) > 0
            t = self.loc_t(v.loc)
            if isinstance(t, (TList, TDict, TSet)):
                return as_bool(self.read(v.loc)[0] > 0)
            raise Unsupported('truth of array')
        if isinstance(v, EnumV):
            return bool(v.value) if isinstance(v.value, int) and v.cls in self.reg.int_enums else True
        if isinstance(v, ObjV):
            return True
        if isinstance(v, (FuncV, ClassV, Ext, ExtObj, Builtin, ModV, TFun)):
            return True
        if isinstance(v, LazyArr) and len(v.shape) == 0:
            return self.truth(v.fn())
        raise Unsupported('truth of %r' % (v,))

    def to_bool(self, c):
        return c if isinstance(c, bool) else mk(Bool, c)

    def eq(self, x, y):
        """python == as bool or term"""
        if isinstance(x, OptV) or isinstance(y, OptV):
            if not isinstance(x, OptV):
                x, y = y, x
            lit = x.t.lit if x.t is not None else None
            if lit is not None:
                if y is None:
                    return False
                if isinstance(y, str):
                    return as_bool(b(x.none)) if y == lit else False
            if y is None:
                return as_bool(b(x.none))
            if isinstance(y, OptV):
                return as_bool(Or_(And_(b(x.none), b(y.none)),
                                   And_(Not_(b(x.none)), Not_(b(y.none)), b(self.eq(x.v, y.v)))))
            return as_bool(And_(Not_(b(x.none)), b(self.eq(x.v, y))))
        if x is None or y is None:
            o = y if x is None else x
            if o is None:
                return True
            if isinstance(o, SV) and isinstance(o.t, TAny):
                return as_bool(AnySort.is_ANone(o.z))
            return False
        if isinstance(x, (bool, int, float)) and isinstance(y, (bool, int, float)):
            return x == y
        if isinstance(x, str) and isinstance(y, str):
            return x == y
        if isinstance(x, EnumV) and isinstance(y, EnumV):
            return x.cls == y.cls and x.name == y.name
        if isinstance(x, ObjV) or isinstance(y, ObjV):
            if isinstance(x, ObjV) and isinstance(y, ObjV):
                return x.addr == y.addr
            if isinstance(x, SV) and isinstance(x.t, TNode) or isinstance(y, SV) and isinstance(y.t, TNode):
                return as_bool(self.scalar(x, NodeT) == self.scalar(y, NodeT))
            return False
        if isinstance(x, (LazyArr, ArrView)) or isinstance(y, (LazyArr, ArrView)) or \
                self.is_arr(x) or self.is_arr(y):
            return self.arr_cmp('==', x, y)
        if isinstance(x, tuple) and isinstance(y, tuple):
            if len(x) != len(y):
                return False
            return as_bool(And_(*[b(self.eq(p, q)) for p, q in zip(x, y)])) if x else True
        if isinstance(x, Handle) and isinstance(y, Handle):
            return self.container_eq(x, y)
        if isinstance(x, (FuncV, ClassV, Ext, ExtObj, Builtin)) or isinstance(y, (FuncV, ClassV, Ext, ExtObj, Builtin)):
            if type(x) is type(y):
                if isinstance(x, FuncV):
                    return x.qual == y.qual and x.bound == y.bound
                if isinstance(x, ClassV):
                    return x.node is y.node
                if isinstance(x, Ext):
                    return x.path == y.path
            return x is y
        tx, ty = self.type_of(x), self.type_of(y)
        if isinstance(tx, TScalar) and isinstance(ty, TScalar):
            num = (TInt, TReal, TBool)
            if isinstance(tx, num) and isinstance(ty, num):
                t = self.join(tx, ty)
                return as_bool(self.scalar(x, t) == self.scalar(y, t))
            if isinstance(tx, TEnum) and isinstance(ty, TEnum):
                if tx.cls != ty.cls:
                    return False
                return as_bool(self.scalar(x, tx) == self.scalar(y, ty))
            for p, q, u, w in ((tx, ty, x, y), (ty, tx, y, x)):
                if isinstance(p, TEnum) and isinstance(q, TInt):
                    if p.cls in self.reg.int_enums:
                        return as_bool(self.scalar(u, p) == self.scalar(w, Int))
                    return False
            if isinstance(tx, TAny) or isinstance(ty, TAny):
                return as_bool(self.scalar(x, Any) == self.scalar(y, Any))
            if tx == ty:
                return as_bool(self.scalar(x, tx) == self.scalar(y, ty))
            if isinstance(tx, TNode) or isinstance(ty, TNode):
                return as_bool(self.scalar(x, NodeT) == self.scalar(y, NodeT))
            return False
        if isinstance(x, Handle) != isinstance(y, Handle):
            if isinstance(x, SV) and isinstance(x.t, TAny) or isinstance(y, SV) and isinstance(y.t, TAny):
                raise Unsupported('compare unknown value with container')
            return False
        if isinstance(x, Seq) or isinstance(y, Seq):
            return self.seq_eq(self.seq_of(x), self.seq_of(y))
        raise Unsupported('compare %r and %r' % (x, y))

    def is_arr(self, v):
        return isinstance(v, (LazyArr, ArrView)) or isinstance(v, Handle) and self.cell(v) is None and \
            isinstance(self.loc_t(v.loc), TArr)

    def container_eq(self, x, y):
        cx, cy = self.cell(x), self.cell(y)
        if cx is not None and cy is not None and cx.kind == 'list' and cy.kind == 'list':
            if len(cx.items) != len(cy.items):
                return False
            return as_bool(And_(*[b(self.eq(p, q)) for p, q in zip(cx.items, cy.items)])) if cx.items else True
        tx, ty = self.loc_t(x.loc), self.loc_t(y.loc)
        if isinstance(tx, TList) and isinstance(ty, TList):
            if tx.e is None or ty.e is None:
                h = y if tx.e is None else x
                return as_bool(self.read(h.loc)[0] == 0) if self.loc_t(h.loc).e is not None else True
            return self.seq_eq(self.seq_of(x), self.seq_of(y))
        if isinstance(tx, (TDict, TSet)) and type(tx) is type(ty):
            if tx.k is None or ty.k is None:
                h = y if tx.k is None else x
                return as_bool(self.read(h.loc)[0] == 0)
            ax, ay = self.read(x.loc), self.read(y.loc)
            k = z3.Const('ek%d' % self.cnt, key_sort(tx.k))
            self.cnt += 1
            conj = [sel(ax[1], k) == sel(ay[1], k)]
            if isinstance(tx, TDict):
                vx = self.load(tx.v, ElemLoc(x.loc, k, tx.v))
                vy = self.load(ty.v, ElemLoc(y.loc, k, ty.v))
                conj.append(Implies_(sel(ax[1], k), b(self.eq(vx, vy))))
            return z3.ForAll([k], b(And_(*conj)))
        return False

    def seq_eq(self, s1, s2):
        if isinstance(s1.n, int) and isinstance(s2.n, int):
            if s1.n != s2.n:
                return False
            return as_bool(And_(*[b(self.eq(s1.get(i), s2.get(i))) for i in range(s1.n)])) if s1.n else True
        i = z3.Const('q%d' % self.cnt, z3.IntSort())
        self.cnt += 1
        sp = self.spec
        self.spec += 1
        try:
            e = b(self.eq(s1.get(i), s2.get(i)))
        finally:
            self.spec = sp
        return z3.And(iz(s1.n) == iz(s2.n), z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < s1.n), e)))

    def identical(self, x, y):
        if x is None or y is None or isinstance(x, (bool, EnumV)) or isinstance(y, (bool, EnumV)):
            return self.eq(x, y)
        if isinstance(x, SV) and isinstance(y, SV) and isinstance(x.t, (TRef, TEnum)):
            return self.eq(x, y)
        if isinstance(x, (ObjV, FuncV, ClassV, Ext)):
            return self.eq(x, y)
        if isinstance(x, Handle) and isinstance(y, Handle):
            lx, ly = self.final_loc(x.loc), self.final_loc(y.loc)
            if isinstance(lx, Root) and isinstance(ly, Root):
                return lx.addr == ly.addr
        raise Unsupported('is-comparison')

    def compare(self, op, x, y):
        if isinstance(op, (ast.Eq, ast.NotEq)):
            r = self.eq(x, y)
            if isinstance(r, LazyArr):
                if isinstance(op, ast.NotEq):
                    return LazyArr(Bool, r.shape, lambda *ix: SV(Bool, z3.Not(self.scalar(r.fn(*ix), Bool))))
                return r
            return r if isinstance(op, ast.Eq) else Not_(r)
        if isinstance(op, (ast.Is, ast.IsNot)):
            r = self.identical(x, y)
            return r if isinstance(op, ast.Is) else Not_(r)
        if isinstance(op, (ast.In, ast.NotIn)):
            r = self.contains(x, y)
            return r if isinstance(op, ast.In) else Not_(r)
        name = {ast.Lt: '<', ast.LtE: '<=', ast.Gt: '>', ast.GtE: '>='}[type(op)]
        if self.is_arr(x) or self.is_arr(y):
            return self.arr_cmp(name, x, y)
        x, y = self.unopt(x), self.unopt(y)
        if isinstance(x, (int, float)) and isinstance(y, (int, float)):
            return {'<': x < y, '<=': x <= y, '>': x > y, '>=': x >= y}[name]
        tx, ty = self.type_of(x), self.type_of(y)
        if isinstance(tx, TEnum) and tx.cls in self.reg.int_enums:
            tx = Int
        if isinstance(ty, TEnum) and ty.cls in self.reg.int_enums:
            ty = Int
        if isinstance(tx, TAny) and isinstance(ty, TAny):
            tx = ty = Real
        if isinstance(tx, TAny):
            tx = ty
        if isinstance(ty, TAny):
            ty = tx
        if not isinstance(tx, (TInt, TReal, TBool)) or not isinstance(ty, (TInt, TReal, TBool)):
            raise Unsupported('ordering of %r and %r' % (tx, ty))
        t = self.join(tx, ty)
        if isinstance(t, TBool):
            t = Int
        p, q = self.scalar(x, t), self.scalar(y, t)
        return as_bool({'<': p < q, '<=': p <= q, '>': p > q, '>=': p >= q}[name])

    def unopt(self, v):
        if isinstance(v, OptV):
            self.need_some(v)
            return self.unopt(v.v)
        return v

    def contains(self, x, y):
        y = self.unopt(y)
        if isinstance(y, ObjV) or isinstance(y, SV) and isinstance(y.t, TRef):
            m = self.getattr_or_none(y, '__contains__')
            if m is not None:
                return self.truth(self.call(m, [x], {}))
            m = self.getattr_or_none(y, '__iter__')
            if m is not None:
                y = self.call(m, [], {})
        if isinstance(y, (str, SV)) and isinstance(self.type_of(y), TStr):
            if isinstance(x, str) and isinstance(y, str):
                return x in y
            return as_bool(z3.Function('str_contains', StrSort, StrSort, z3.BoolSort())(
                self.scalar(y, Str), self.scalar(x, Str)))
        if isinstance(y, Handle):
            c = self.cell(y)
            if c is not None:
                keys = [k for k, _ in c.items] if c.kind == 'dict' else c.items
                return as_bool(Or_(*[b(self.eq(x, k)) for k in keys])) if keys else False
            t = self.loc_t(y.loc)
            if isinstance(t, (TDict, TSet)):
                if x is None:
                    return False
                if isinstance(x, OptV):
                    return as_bool(And_(Not_(x.none), sel(self.read(y.loc)[1], self.key_term(x.v, t.k))))
                return as_bool(sel(self.read(y.loc)[1], self.key_term(x, t.k)))
        s = self.seq_of(y)
        if isinstance(s.n, int):
            return as_bool(Or_(*[b(self.eq(x, s.get(i))) for i in range(s.n)])) if s.n else False
        i = z3.Const('m%d' % self.cnt, z3.IntSort())
        self.cnt += 1
        sp, self.spec = self.spec, self.spec + 1
        try:
            e = b(self.eq(x, s.get(i)))
        finally:
            self.spec = sp
        return z3.Exists([i], z3.And(0 <= i, i < s.n, e))

    # ------------------------------------------------------------ arithmetic
    def binop(self, op, x, y):
        if isinstance(x, str) and isinstance(op, ast.Mod):
            return self.fmt(x, y)
        if self.is_arr(x) or self.is_arr(y):
            if isinstance(op, (ast.BitAnd, ast.BitOr)):
                return self.arr_map2(lambda p, q: mk(Bool, (z3.And if isinstance(op, ast.BitAnd) else z3.Or)(
                    self.scalar(p, Bool), self.scalar(q, Bool))), Bool, x, y)
            tx, ty = self.elem_t(x), self.elem_t(y)
            rt = Real if isinstance(op, (ast.Div, ast.Pow)) else self.join(tx, ty)
            if isinstance(rt, TBool):
                rt = Int
            return self.arr_map2(lambda p, q: self.binop(op, p, q), rt, x, y)
        x, y = self.unopt(x), self.unopt(y)
        if isinstance(x, (ObjV,)) or isinstance(x, SV) and isinstance(x.t, TRef):
            mname = {ast.Add: '__add__', ast.Sub: '__sub__', ast.Mult: '__mul__'}.get(type(op))
            m = self.getattr_or_none(x, mname) if mname else None
            if m is not None:
                return self.call(m, [y], {})
        if isinstance(op, ast.Add):
            if isinstance(x, tuple) and isinstance(y, tuple):
                return tuple(x) + tuple(y)
            if isinstance(self.type_of(x), TStr) or isinstance(self.type_of(y), TStr):
                return self.concat(x, y)
            if isinstance(x, Handle) and isinstance(y, Handle):
                return self.list_concat(x, y)
        if isinstance(op, ast.Mult) and (isinstance(x, Handle) or isinstance(y, Handle)):
            h, n = (x, y) if isinstance(x, Handle) else (y, x)
            return self.list_repeat(h, n)
        if isinstance(op, (ast.BitAnd, ast.BitOr)) and isinstance(x, Handle):
            return self.set_op(op, x, y)
        if isinstance(op, ast.Sub) and isinstance(x, Handle):
            return self.set_op(op, x, y)
        if isinstance(x, (int, float)) and isinstance(y, (int, float)) and not isinstance(op, ast.Div):
            try:
                if isinstance(x, int) and isinstance(y, int):
                    return {ast.Add: lambda: x + y, ast.Sub: lambda: x - y, ast.Mult: lambda: x * y,
                            ast.FloorDiv: lambda: x // y, ast.Mod: lambda: x % y, ast.Pow: lambda: x ** y,
                            ast.BitAnd: lambda: x & y, ast.BitOr: lambda: x | y,
                            ast.LShift: lambda: x << y, ast.RShift: lambda: x >> y}[type(op)]()
            except KeyError:
                pass
        tx, ty = self.type_of(x), self.type_of(y)
        if isinstance(tx, TAny):
            tx = ty if isinstance(ty, (TInt, TReal)) else Real
        if isinstance(ty, TAny):
            ty = tx
        if isinstance(tx, TEnum):
            tx = Int
        if isinstance(ty, TEnum):
            ty = Int
        if not isinstance(tx, (TInt, TReal, TBool)) or not isinstance(ty, (TInt, TReal, TBool)):
            raise Unsupported('arithmetic on %r and %r' % (tx, ty))
        if isinstance(op, (ast.BitAnd, ast.BitOr)) and isinstance(tx, TBool) and isinstance(ty, TBool):
            f = z3.And if isinstance(op, ast.BitAnd) else z3.Or
            return mk(Bool, f(self.scalar(x, Bool), self.scalar(y, Bool)))
        t = self.join(tx, ty)
        if isinstance(t, TBool):
            t = Int
        if isinstance(op, ast.Div):
            p, q = self.scalar(x, Real), self.scalar(y, Real)
            self.oblige('division-by-nonzero', q != 0)
            return SV(Real, p / q)
        p, q = self.scalar(x, t), self.scalar(y, t)
        if isinstance(op, ast.Add):
            return mk(t, fold(p + q))
        if isinstance(op, ast.Sub):
            return mk(t, fold(p - q))
        if isinstance(op, ast.Mult):
            return mk(t, fold(p * q))
        if isinstance(op, ast.FloorDiv) and isinstance(t, TInt):
            self.oblige('division-by-nonzero', q != 0)
            return mk(Int, z3.If(q > 0, p / q, (-p) / (-q)))
        if isinstance(op, ast.Mod) and isinstance(t, TInt):
            self.oblige('division-by-nonzero', q != 0)
            return mk(Int, z3.If(q > 0, p % q, -((-p) % (-q))))
        if isinstance(op, ast.Pow) and isinstance(y, int) and 0 <= y <= 4:
            r = z3.IntVal(1) if isinstance(t, TInt) else z3.RealVal(1)
            for _ in range(y):
                r = r * p
            return mk(t, r)
        raise Unsupported('operator %s' % type(op).__name__)

    def elem_t(self, v):
        if self.is_arr(v):
            return self.as_lazy(v).e
        return self.type_of(v)

    def concat(self, x, y):
        if isinstance(x, str) and isinstance(y, str):
            return x + y
        return SV(Str, self.cat(self.scalar(x, Str), self.scalar(y, Str)))

    def cat(self, x, y):
        # right-nested normal form with merged literals
        def parts(z):
            if z3.is_app(z) and z.decl().name() == 'str_cat':
                return parts(z.arg(0)) + parts(z.arg(1))
            return [z]
        ps = parts(x) + parts(y)
        out = []
        for p in ps:
            s = lit_of(p)
            if s == '':
                continue
            if s is not None and out and lit_of(out[-1]) is not None:
                out[-1] = str_lit(lit_of(out[-1]) + s)
                continue
            out.append(p)
        if not out:
            return str_lit('')
        r = out[-1]
        for p in reversed(out[:-1]):
            r = cat_f(p, r)
        return r

    def to_str(self, v):
        v = self.unopt(v)
        if isinstance(v, str):
            return v
        if isinstance(v, bool) or isinstance(v, int):
            return str(v)
        t = self.type_of(v)
        if isinstance(t, TStr):
            return v
        if isinstance(v, SV):
            return SV(Str, z3.Function('to_str_%s' % v.z.sort().name(), v.z.sort(), StrSort)(v.z))
        if isinstance(v, EnumV):
            return '%s.%s' % (v.cls, v.name)
        if isinstance(v, ObjV):
            m = self.getattr_or_none(v, '__repr__')
            if m is not None:
                return self.call(m, [], {})
        return SV(Str, self.fresh('text', StrSort))

    def fmt(self, s, y):
        return SV(Str, self.fresh('text', StrSort))

    # ------------------------------------------------------------ expressions
    def ev(self, e):
        m = getattr(self, 'ev_' + type(e).__name__, None)
        if m is None:
            raise Unsupported('expression %s' % type(e).__name__)
        return m(e)

    def ev_Constant(self, e):
        if e.value is Ellipsis:
            raise Unsupported('ellipsis')
        return e.value

    def ev_Name(self, e):
        return self.lookup(e.id)

    def ev_Tuple(self, e):
        out = []
        for x in e.elts:
            if isinstance(x, ast.Starred):
                s = self.seq_of(self.ev(x.value))
                if not isinstance(s.n, int):
                    raise Unsupported('star of symbolic sequence')
                out += [s.get(i) for i in range(s.n)]
            else:
                out.append(self.ev(x))
        return tuple(out)

    def ev_List(self, e):
        return self.new_py('list', self.ev_Tuple(e))

    def ev_Set(self, e):
        return self.new_py('set', self.ev_Tuple(e))

    def ev_Dict(self, e):
        h = self.new_py('dict', [])
        for k, v in zip(e.keys, e.values):
            if k is None:
                self.method_dict_update(h, [self.ev(v)], {})
            else:
                self.setitem(h, self.ev(k), self.ev(v))
        return h

    def ev_NamedExpr(self, e):
        v = self.ev(e.value)
        self.bind_name(e.target.id, v)
        return v

    def ev_JoinedStr(self, e):
        r = ''
        for p in e.values:
            if isinstance(p, ast.Constant):
                r = self.concat(r, p.value)
            else:
                v = self.ev(p.value)
                if p.format_spec is not None:
                    r = self.concat(r, SV(Str, self.fresh('text', StrSort)))
                else:
                    r = self.concat(r, self.to_str(v))
        return r

    def ev_Attribute(self, e):
        return self.getattr(self.ev(e.value), e.attr)

    def ev_Lambda(self, e):
        return FuncV(e, self.frame.mod, self.frame, self.frame.qual + '.<lambda>')

    def ev_IfExp(self, e):
        c = self.truth(self.ev(e.test))
        if isinstance(c, bool):
            return self.ev(e.body if c else e.orelse)
        if self.spec or (simple_pure(e.body) and simple_pure(e.orelse)):
            try:
                if self.spec:
                    return self.merge(c, self.ev(e.body), self.ev(e.orelse))
                x = self.guarded(c, lambda: self.ev(e.body))
                y = self.guarded(Not_(c), lambda: self.ev(e.orelse))
                return self.merge(c, x, y)
            except NeedBranch:
                pass
            except Unsupported:
                if self.spec:
                    raise
        return self.ev(e.body if self.branch(c) else e.orelse)

    def guarded(self, c, thunk):
        """evaluate without branching under condition c"""
        mark = len(self.st.pc)
        self.st.pc.append(('C', b(c)))
        self.nobranch += 1
        try:
            v = thunk()
        finally:
            self.nobranch -= 1
            delta = self.st.pc[mark:]
            del self.st.pc[mark:]
        conds = []
        for kind, f in delta:
            if kind == 'C':
                conds.append(f)
            else:
                self.assume(Implies_(And_(*conds), f))
        return v

    def ev_BoolOp(self, e):
        isand = isinstance(e.op, ast.And)
        if self.spec:
            cs = []
            for x in e.values:
                c = self.truth(self.ev(x))
                if c is (not isand):
                    return c
                cs.append(c)
            return self.to_bool(as_bool(And_(*cs) if isand else Or_(*cs)))
        v = self.ev(e.values[0])
        for nxt in e.values[1:]:
            c = self.truth(v)
            if isinstance(c, bool):
                if c != isand:
                    return v
                v = self.ev(nxt)
                continue
            boolish = isinstance(v, bool) or isinstance(v, SV) and isinstance(v.t, TBool)
            if simple_pure(nxt):
                try:
                    w = self.guarded(c if isand else Not_(c), lambda: self.ev(nxt))
                    if boolish and (isinstance(w, bool) or isinstance(w, SV) and isinstance(w.t, TBool)):
                        d = self.truth(w)
                        v = self.to_bool(as_bool(And_(c, d) if isand else Or_(c, d)))
                        continue
                    # truth value only needed in a test: keep python semantics by merging
                    v = self.merge(c, w, v) if isand else self.merge(c, v, w)
                    continue
                except (NeedBranch, Unsupported):
                    pass
            if self.branch(c) != isand:
                return v
            v = self.ev(nxt)
        return v

    def test(self, e):
        """evaluate a condition; returns bool or term (short-circuit kept as conjunction where pure)"""
        if isinstance(e, ast.BoolOp) and not self.spec:
            isand = isinstance(e.op, ast.And)
            acc = isand
            for x in e.values:
                if isinstance(acc, bool):
                    if acc != isand:
                        return acc
                    acc = self.test(x)
                    continue
                done = False
                if simple_pure(x):
                    try:
                        d = self.guarded(acc if isand else Not_(acc), lambda: self.test(x))
                        acc = as_bool(And_(acc, d) if isand else Or_(acc, d))
                        done = True
                    except NeedBranch:
                        pass
                if not done:
                    if self.branch(acc) != isand:
                        return not isand
                    acc = self.test(x)
            return acc
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            return Not_(self.test(e.operand))
        return self.truth(self.ev(e))

    def ev_UnaryOp(self, e):
        v = self.ev(e.operand)
        if isinstance(e.op, ast.Not):
            return self.to_bool(as_bool(Not_(self.truth(v))))
        if self.is_arr(v):
            lz = self.as_lazy(v)
            if isinstance(e.op, ast.Invert):
                return LazyArr(Bool, lz.shape, lambda *ix: mk(Bool, z3.Not(self.scalar(lz.fn(*ix), Bool))))
            if isinstance(e.op, ast.USub):
                return LazyArr(lz.e, lz.shape, lambda *ix: mk(lz.e, -self.scalar(lz.fn(*ix), lz.e)))
        v = self.unopt(v)
        if isinstance(e.op, ast.USub):
            if isinstance(v, (int, float)):
                return -v
            t = self.type_of(v)
            if isinstance(t, TAny):
                t = Real
            return mk(t, -self.scalar(v, t))
        if isinstance(e.op, ast.UAdd):
            return v
        raise Unsupported('unary %s' % type(e.op).__name__)

    def ev_BinOp(self, e):
        x = self.ev(e.left)
        return self.binop(e.op, x, self.ev(e.right))

    def ev_Compare(self, e):
        x = self.ev(e.left)
        acc = True
        for i, (op, c) in enumerate(zip(e.ops, e.comparators)):
            if acc is False:
                return False
            y = self.ev(c)
            r = self.compare(op, x, y)
            if isinstance(r, LazyArr):
                if len(e.ops) > 1:
                    raise Unsupported('chained array comparison')
                return r
            acc = And_(acc, r)
            x = y
        return self.to_bool(as_bool(acc))

    def ev_Subscript(self, e):
        return self.getitem(self.ev(e.value), self.ev_index(e.slice))

    def ev_index(self, s):
        if isinstance(s, ast.Slice):
            return SliceV(*[self.ev(x) if x is not None else None for x in (s.lower, s.upper, s.step)])
        if isinstance(s, ast.Tuple):
            return tuple(self.ev_index(x) for x in s.elts)
        return self.ev(s)

    def ev_Starred(self, e):
        raise Unsupported('starred')

    def ev_Slice(self, e):
        return self.ev_index(e)

    # comprehensions ------------------------------------------------
    expect = None      # declared type of the list a comprehension is assigned to

    def ev_ListComp(self, e):
        s = self.comp_seq(e.generators, lambda: self.ev(e.elt))
        return self.list_from_seq(s)

    def ev_GeneratorExp(self, e):
        return self.comp_seq(e.generators, lambda: self.ev(e.elt))

    def ev_SetComp(self, e):
        return self.set_from_seq(self.comp_seq(e.generators, lambda: self.ev(e.elt)))

    def ev_DictComp(self, e):
        s = self.comp_seq(e.generators, lambda: (self.ev(e.key), self.ev(e.value)))
        return self.dict_from_seq(s)

    def comp_seq(self, gens, elt):
        """sequence of element values of a comprehension"""
        fr = self.new_frame(self.frame.mod, self.frame, self.frame.qual, self.frame.cls)
        fr.self_name = self.frame.self_name
        stack = list(self.callstack)

        def in_frame(thunk):
            def run(*a):
                saved = self.callstack
                self.callstack = stack + [fr]
                saved_env = dict(self.st.frames.setdefault(fr.fid, {}))
                try:
                    return thunk(*a)
                finally:
                    self.callstack = saved
                    self.st.frames[fr.fid] = saved_env
            return run

        def level(gi):
            g = gens[gi]
            src = self.seq_of(self.ev(g.iter))
            inner = elt if gi == len(gens) - 1 else None

            def at(i):
                self.assign_target(g.target, src.get(i), local=fr)

            if isinstance(src.n, int):
                out = []
                for i in range(src.n):
                    at(i)
                    ok = True
                    for cnd in g.ifs:
                        c = self.test(cnd)
                        if not isinstance(c, bool):
                            if self.nobranch or self.spec or True:
                                ok = c if ok is True else And_(ok, c)
                                continue
                        if not c:
                            ok = False
                            break
                    if ok is False:
                        continue
                    if ok is not True:
                        if not self.branch(ok):
                            continue
                    if inner is not None:
                        out.append(inner())
                    else:
                        s = level(gi + 1)
                        if not isinstance(s.n, int):
                            raise Unsupported('nested symbolic comprehension')
                        out += [s.get(j) for j in range(s.n)]
                return Seq(len(out), lambda i: out[i] if isinstance(i, int) else self.pick(out, i))
            if inner is None:
                raise Unsupported('nested symbolic comprehension')
            if g.ifs:
                def cond(i):
                    at(i)
                    acc = True
                    for cnd in g.ifs:
                        if acc is True:
                            acc = self.merged(lambda: self.to_bool(self.test(cnd)))
                            acc = self.truth(acc)
                        else:
                            acc = And_(acc, self.guarded(acc, lambda: self.test(cnd)))
                    return acc
                src2 = self.filter_seq(src, in_frame(cond))
            else:
                src2 = src

            def get(i):
                self.assign_target(g.target, src2.get(i), local=fr)
                return inner()

            def get_pure(i):
                if self.spec:
                    return in_frame(get)(i)
                return self.merged(lambda: in_frame(get)(i))
            # evaluate obligations once for a generic element
            if not self.spec:
                i = self.bvar('gi')
                with self.binder(i, z3.And(0 <= i, i < src2.n)):
                    v = get_pure(i)
                    return self.seq_template(src2.n, i, v)
            return Seq(src2.n, get_pure)

        return in_frame(level)(0)

    def seq_template(self, n, i, v):
        """sequence whose i-th element is the value v (which mentions the constant i)"""
        try:
            t = self.type_of(v)
            if isinstance(self.expect, TList) and jt_incomplete(t):
                t = self.expect.e
            terms = self.flatten(v, t)
        except Unsupported:
            if isinstance(v, (ObjV, FuncV, ClassV, Ext)) or v is None:
                return Seq(n, lambda j: v)
            raise
        if isinstance(t, TConst):
            return Seq(n, lambda j: v)

        def get(j):
            z = iz(j)
            return self.unflatten_snap(t, [z3.substitute(x, (i, z)) for x in terms])
        return Seq(n, get)

    def unflatten_snap(self, t, terms):
        sp, self.spec = self.spec, self.spec + 1
        try:
            return self.unflatten(t, terms)
        finally:
            self.spec = sp

    def filter_seq(self, src, cond):
        """subsequence of elements satisfying cond(i) (symbolic length)"""
        n = src.n
        m = self.fresh('fn', z3.IntSort())
        i = self.bvar('fi')
        I = z3.IntSort()
        idx = self.fresh('fidx', z3.ArraySort(I, I))
        pos = self.fresh('fpos', z3.ArraySort(I, I))
        if self.spec:
            c = cond(i)
        else:
            with self.binder(i, z3.And(0 <= i, i < n)):
                c = cond(i)
        c = b(c)
        # the same selection from the same positions is the same sequence
        key = (iz(n).sexpr(), z3.substitute(c, (i, z3.Int('sel!'))).sexpr()) if not self.binders and not self.spec else None
        if key is not None and key in self.selections:
            m, idx, pos = self.selections[key]
        elif key is not None:
            self.selections[key] = m, idx, pos
        j, k = z3.Ints('fj fk')
        cj = z3.substitute(c, (i, idx[j]))
        self.assume(z3.And(0 <= m, m <= n))
        self.assume(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < m),
                                              z3.And(0 <= idx[j], idx[j] < n, cj, pos[idx[j]] == j)),
                              patterns=[idx[j]]))
        self.assume(z3.ForAll([j, k], z3.Implies(z3.And(0 <= j, j < k, k < m), idx[j] < idx[k]),
                              patterns=[z3.MultiPattern(idx[j], idx[k])]))
        body = z3.Implies(z3.And(0 <= i, i < n, c), z3.And(0 <= pos[i], pos[i] < m, idx[pos[i]] == i))
        self.assume(z3.ForAll([i], body))
        # when the kept elements form a prefix, the selection is that prefix
        nxt = z3.substitute(c, (i, i + 1))
        pre = z3.ForAll([i], z3.Implies(z3.And(0 <= i, i + 1 < n, nxt), c))
        self.assume(z3.Implies(pre, z3.And(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < m), idx[j] == j), patterns=[idx[j]]),
                                           z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), c == (i < m))))))
        return Seq(m, lambda q: src.get(idx[iz(q)]), src=('filter', idx, pos, src))

    def pick(self, out, i):
        if not out:
            raise Unsupported('element of empty sequence')
        v = out[-1]
        for j in range(len(out) - 2, -1, -1):
            v = self.merge(i == j, out[j], v)
        return v

    # ------------------------------------------------------------ attributes
    def class_of(self, name):
        """registered class name -> ClassV"""
        q = self.reg.classes.get(name)
        if q is None:
            return None
        m, cn = q.split(':')
        if '<locals>' in cn:
            mod, node = self.prog.nested_class(q)
            return ClassV(node.name, mod, node, self.callstack[0] if self.callstack else None)
        r = self.prog.find(m, cn)
        if not r or r[0] in ('ext', 'mod') or not isinstance(r[1], ast.ClassDef):
            raise Unsupported('class %s not found' % q)
        return ClassV(cn, r[0], r[1])

    def obj_class(self, v):
        if isinstance(v, ObjV):
            c = self.st.objs[v.addr][0]
            if isinstance(c, ClassV):
                return c
            return self.class_of(c)
        if isinstance(v, SV) and isinstance(v.t, TRef):
            return self.class_of(v.t.cls)
        return None

    def find_method(self, cv, name, after=None):
        mro = self.prog.mro(cv.mod, cv.node)
        if after is not None:
            ix = [i for i, (m, c) in enumerate(mro) if c is after]
            mro = mro[ix[0] + 1:] if ix else []
        for m, c in mro:
            for st in c.body:
                if isinstance(st, ast.FunctionDef) and st.name == name:
                    q = '%s:%s.%s' % (m.name, getattr(c, '_qualname', c.name), name)
                    return FuncV(st, m, cv.frame if c is cv.node else None, q, cls=(m, c))
                if isinstance(st, ast.Assign) and isinstance(st.targets[0], ast.Name) and st.targets[0].id == name:
                    return ('value', m, st.value)
                if isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name) and st.target.id == name and \
                        st.value is not None:
                    return ('value', m, st.value)
        return None

    def decorated(self, fn):
        out = set()
        for d in fn.decorator_list:
            x = d.func if isinstance(d, ast.Call) else d
            if isinstance(x, ast.Attribute):
                out.add(x.attr)
            elif isinstance(x, ast.Name):
                out.add(x.id)
        return out

    def getattr_or_none(self, v, name):
        cv = self.obj_class(v)
        if cv is None:
            cls = self.st.objs[v.addr][0] if isinstance(v, ObjV) else None
            c = self.reg.externals.get('%s.%s' % (cls, name)) if isinstance(cls, str) else None
            return ExtObj(c, v) if c is not None else None
        f = self.find_method(cv, name)
        return f.bind(v) if isinstance(f, FuncV) else None

    def class_attr(self, cv, v, name):
        f = self.find_method(cv, name)
        if f is None:
            return None
        if isinstance(f, tuple):
            fr = self.new_frame(f[1], None, f[1].name)
            self.callstack.append(fr)
            try:
                return (self.ev(f[2]),)
            finally:
                self.callstack.pop()
        d = self.decorated(f.node)
        if 'staticmethod' in d:
            return (f,)
        if 'classmethod' in d:
            return (f.bind(cv),)
        if v is None:
            return (f,)
        if 'property' in d or 'cached_property' in d:
            return (self.call_func(f.bind(v), [], {}),)
        return (f.bind(v),)

    def getattr(self, v, name):
        v = self.unopt(v)
        if isinstance(v, Super):
            cv = self.obj_class(v.selfv)
            f = self.find_method(cv, name, after=v.cls[1]) if cv is not None else None
            if isinstance(f, FuncV):
                return f.bind(v.selfv)
            key = 'super.' + name
            if key in self.reg.externals:
                return ExtObj(self.reg.externals[key], v.selfv)
            if name == '__init__':
                return Builtin('object.__init__', lambda *a, **k: None)
            if name == '__setattr__':
                return Builtin('object.__setattr__', lambda n, x: self.setattr(v.selfv, n, x, declared=False))
            raise Unsupported('super().%s' % name)
        if isinstance(v, ObjV):
            cls, fields = self.st.objs[v.addr]
            if name in fields:
                x = fields[name]
                if isinstance(x, ExtObj) and x.bound is None:
                    return ExtObj(x.contract, v)
                return x
            cv = self.obj_class(v)
            if cv is not None:
                r = self.class_attr(cv, v, name)
                if r is not None:
                    return r[0]
            if name == '__class__' and cv is not None:
                return cv
            if name == '__dict__':
                return Method(v, '__dict__')
            key = (cls if isinstance(cls, str) else cls.name) + '.' + name
            if key in self.reg.externals:
                return ExtObj(self.reg.externals[key], v)
            self.py_error('AttributeError', 'attribute-%s-exists' % name)
        if isinstance(v, SV) and isinstance(v.t, TRef):
            rc = self.reg.refs[v.t.cls]
            if name in rc.fields:
                return self.load(rc.fields[name], FieldLoc(v.t.cls, name, v.z, rc.fields[name]))
            if name in rc.consts:
                x = rc.consts[name]
                if isinstance(x, ExtObj) and x.bound is None:
                    return ExtObj(x.contract, v)
                return x
            cv = self.obj_class(v)
            if cv is not None:
                r = self.class_attr(cv, v, name)
                if r is not None:
                    return r[0]
            raise Unsupported('attribute %s of %s' % (name, v.t.cls))
        if isinstance(v, NT) and name in v.names:
            return v[v.names.index(name)]
        if isinstance(v, EnumV):
            if name == 'value':
                return v.value
            if name == 'name':
                return v.name
        if isinstance(v, SV) and isinstance(v.t, TEnum) and name == 'value':
            mem = self.enum_members(v.t.cls)
            if all(isinstance(x, int) for x in mem.values()):
                return SV(Int, v.z)
            raise Unsupported('enum value')
        if isinstance(v, SV) and isinstance(v.t, (TNode, TAny)):
            k = 'node.' + name
            if k in self.reg.externals:
                return ExtObj(self.reg.externals[k], v)
            if name in self.reg.node_attrs:
                nt = self.reg.node_attrs[name]
                z = self.scalar(v, NodeT)
                fs = [z3.Function('attr_%s.%d' % (name, i), NodeSort, s)(z) for i, s in enumerate(sorts(nt))]
                return self.unflatten_snap(nt, fs)
        if isinstance(v, ModV):
            r = self.prog.find(v.mod, name)
            if r is None:
                raise Unsupported('%s.%s' % (v.mod, name))
            return self.resolved(r, name)
        if isinstance(v, Ext):
            if v.path == 'object' and name == '__setattr__':
                return Builtin('object.__setattr__', lambda o, n, x: self.setattr(o, n, x, declared=False))
            if v.path == 'object' and name == '__getattribute__':
                return Builtin('object.__getattribute__', lambda o, n: self.getattr(o, n))
            en = self.reg.ext_enums.get(v.path)
            if en is not None and name in self.reg.enums[en]:
                return EnumV(en, name, self.reg.enums[en][name])
            return self.ext(v.path + '.' + name)
        if isinstance(v, ExtObj):
            k = v.contract.short + '.' + name
            if k in self.reg.externals:
                return ExtObj(self.reg.externals[k], v.bound)
            raise Unsupported('attribute %s of external %s' % (name, v.contract.short))
        if isinstance(v, ClassV):
            return self.class_getattr(v, name)
        if isinstance(v, FuncV):
            if name == '__name__':
                return v.node.name
        if isinstance(v, TFun) or v is None:
            self.py_error('AttributeError', 'attribute-%s-of-None' % name)
        if self.is_arr(v):
            lz = self.as_lazy(v)
            if name == 'shape':
                return tuple(mk(Int, d) if not isinstance(d, int) else d for d in lz.shape)
            if name == 'T':
                return LazyArr(lz.e, lz.shape[::-1], lambda *ix: lz.fn(*ix[::-1]))
            if name == 'size':
                r = 1
                for d in lz.shape:
                    r = self.binop(ast.Mult(), r, mk(Int, d) if not isinstance(d, int) else d)
                return r
            if name == 'ndim':
                return len(lz.shape)
            if name in ('iloc', 'values'):      # pandas objects held as arrays
                return v
        if isinstance(v, (Handle, LazyArr, ArrView, str, tuple, Seq)) or isinstance(v, SV):
            return Method(v, name)
        raise Unsupported('attribute %s of %r' % (name, v))

    def class_getattr(self, cv, name):
        bases = self.prog.ext_bases(cv.mod, cv.node)
        if bases & {'Enum', 'IntEnum'}:
            for st in cv.node.body:
                if isinstance(st, ast.Assign) and isinstance(st.targets[0], ast.Name) and st.targets[0].id == name:
                    if cv.name not in self.reg.enums:
                        self.reg.enums[cv.name] = '%s:%s' % (cv.mod.name, cv.name)
                    if 'IntEnum' in bases:
                        self.reg.int_enums.add(cv.name)
                    return EnumV(cv.name, name, self.enum_members(cv.name)[name])
        if name == '__name__':
            return cv.name
        r = self.class_attr(cv, None, name)
        if r is not None:
            return r[0]
        raise Unsupported('class attribute %s.%s' % (cv.name, name))

    def setattr(self, v, name, val, declared=True):
        v = self.unopt(v)
        if isinstance(v, (ObjV,)) or isinstance(v, SV) and isinstance(v.t, TRef):
            cv = self.obj_class(v)
            if cv is not None and declared:
                f = self.find_method(cv, '__setattr__')
                if isinstance(f, FuncV):
                    return self.call_func(f.bind(v), [name, val], {})
                # property setter
                for m, c in self.prog.mro(cv.mod, cv.node):
                    for st in c.body:
                        if isinstance(st, ast.FunctionDef) and st.name == name:
                            for d in st.decorator_list:
                                if isinstance(d, ast.Attribute) and d.attr == 'setter':
                                    q = '%s:%s.%s.setter' % (m.name, c.name, name)
                                    return self.call_func(FuncV(st, m, None, q, cls=(m, c), bound=v), [val], {})
        if isinstance(v, ObjV):
            cls, fields = self.st.objs[v.addr]
            val = self.settle(val)
            ft = self.reg.field_t(cls if isinstance(cls, str) else cls.name, name)
            if ft is not None:
                val = self.adopt(val, ft)
            if self.is_nodelike(cls):
                if '#enc' in fields:
                    return self.late_node_attr(v, name, val)
            self.note_write(('obj', v.addr, name), self.type_of(val))
            fields[name] = val
            return
        if isinstance(v, SV) and isinstance(v.t, TRef):
            rc = self.reg.refs[v.t.cls]
            if name in rc.consts:
                return
            if name not in rc.fields:
                if rc.open:
                    return
                raise Unsupported('assignment to undeclared field %s.%s' % (v.t.cls, name))
            t = rc.fields[name]
            loc = FieldLoc(v.t.cls, name, v.z, t)
            self.write(loc, self.flatten(val, t))
            self.moved(val, loc, t)
            return
        if isinstance(v, SV) and isinstance(v.t, TNode):
            return self.late_node_attr(v, name, val)
        raise Unsupported('attribute assignment on %r' % (v,))

    def late_node_attr(self, v, name, val):
        self.notes.append('attribute %s set on an already stored opaque value is not tracked' % name)

    def py_error(self, exc, label):
        """an implicit python error happens here for certain"""
        if self.spec:
            raise Unsupported('undefined specification: %s' % label)
        self.py_check(False, exc, label)
        raise PathEnd()

    def py_check(self, ok, exc, label):
        """the operation needs `ok`; otherwise exception exc is raised"""
        if self.spec:
            return
        ok = as_bool(ok)
        if ok is True:
            if self.emitting():
                self.vcs.append(VC(self.vcname(label), None, None, self.cur_where, 'safety'))
            return
        if self.may_raise(exc) and not self.nobranch:
            if not self.branch(ok):
                raise PyRaise(exc, (), label)
            return
        self.oblige(label, ok)

    def may_raise(self, exc):
        for names in self.trydepth:
            if any(exc_isa(exc, n) for n in names):
                return True
        return self.cur is not None and any(exc_isa(exc, r[0]) for r in self.cur.raises)

    # ------------------------------------------------------------ statements
    def block(self, stmts):
        for s in stmts:
            self.stmt(s)

    def stmt(self, s):
        self.cur_where = '%s line %d' % (self.frame.qual, s.lineno)
        m = getattr(self, 'ex_' + type(s).__name__, None)
        if m is None:
            raise Unsupported('statement %s' % type(s).__name__)
        m(s)

    def ex_Pass(self, s):
        pass

    def ex_Expr(self, s):
        if isinstance(s.value, ast.Constant):
            return
        if isinstance(s.value, (ast.Yield,)):
            v = self.ev(s.value.value) if s.value.value is not None else None
            self.do_yield(v)
            return
        v = self.ev(s.value)

    def do_yield(self, v):
        h = self.lookup('_yielded')
        self.list_append(h, v)

    def declared_type(self, t):
        if isinstance(t, ast.Name):
            return self.frame.locals_t.get(t.id)
        if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name):
            v = self.ev(t.value)
            if isinstance(v, ObjV):
                cls = self.st.objs[v.addr][0]
                return self.reg.field_t(cls if isinstance(cls, str) else cls.name, t.attr)

    def ex_Assign(self, s):
        if isinstance(s.value, ast.ListComp) and len(s.targets) == 1 and self.expect is None:
            t = self.declared_type(s.targets[0])
            self.expect = t.t if isinstance(t, TOpt) else t
            try:
                return self.assign_(s)
            finally:
                self.expect = None
        return self.assign_(s)

    def assign_(self, s):
        v = self.ev(s.value)
        if len(s.targets) > 1 or isinstance(v, LazyArr) and isinstance(s.targets[0], ast.Name):
            v = self.settle(v)
        for t in s.targets:
            self.assign_target(t, v)
            self.run_hints(t)

    def run_hints(self, t):
        h = getattr(self.cur, 'hints', None)
        if h and isinstance(t, ast.Name) and t.id in h and self.frame.qual == self.cur.qual.split('#')[0] and not self.spec:
            self.cur.hints_done.add(t.id)
            self.ghost_exec(h[t.id])

    def ex_AnnAssign(self, s):
        if s.value is not None:
            self.assign_target(s.target, self.ev(s.value))

    def assign_target(self, t, v, local=None):
        if isinstance(t, ast.Name):
            if local is not None:
                self.st.frames[local.fid][t.id] = v
            else:
                self.bind_name(t.id, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            s = self.seq_of(v)
            if any(isinstance(x, ast.Starred) for x in t.elts):
                raise Unsupported('starred assignment')
            if isinstance(s.n, int):
                if s.n != len(t.elts):
                    self.py_error('ValueError', 'unpack-count')
            else:
                self.py_check(iz(s.n) == len(t.elts), 'ValueError', 'unpack-count')
            vals = [s.get(i) for i in range(len(t.elts))]
            for x, y in zip(t.elts, vals):
                self.assign_target(x, y, local)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.ev(t.value), t.attr, v)
        elif isinstance(t, ast.Subscript):
            self.setitem(self.ev(t.value), self.ev_index(t.slice), v)
        else:
            raise Unsupported('assignment target')

    def ex_AugAssign(self, s):
        t = s.target
        if isinstance(t, ast.Name):
            cur = self.ev_Name(t)
            r = self.inplace(s.op, cur, self.ev(s.value))
            if r is not None:
                self.bind_name(t.id, r[0])
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value)
            cur = self.getattr(o, t.attr)
            r = self.inplace(s.op, cur, self.ev(s.value))
            if r is not None:
                self.setattr(o, t.attr, r[0])
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value)
            ix = self.ev_index(t.slice)
            cur = self.getitem(o, ix)
            r = self.inplace(s.op, cur, self.ev(s.value))
            if r is not None:
                self.setitem(o, ix, r[0])

    def inplace(self, op, cur, v):
        """returns None when done in place, else (new value,)"""
        if isinstance(cur, Handle) and not self.is_arr(cur):
            if isinstance(op, ast.Add):
                self.list_extend(cur, v)
                return None
        if isinstance(cur, (Handle, ArrView)) and self.is_arr(cur):
            r = self.binop(op, cur, v)
            self.arr_assign_all(cur, r)
            return None
        if isinstance(cur, ObjV) or isinstance(cur, SV) and isinstance(cur.t, TRef):
            mname = {ast.Add: '__iadd__'}.get(type(op))
            m = self.getattr_or_none(cur, mname) if mname else None
            if m is not None:
                return (self.call(m, [v], {}),)
        return (self.binop(op, cur, v),)

    def ex_Return(self, s):
        v = self.ev(s.value) if s.value is not None else None
        raise ReturnEx(v)

    def plain(self, e):
        """expression without obligations or effects"""
        if isinstance(e, (ast.Name, ast.Constant)):
            return True
        if isinstance(e, ast.UnaryOp):
            return self.plain(e.operand)
        if isinstance(e, ast.BinOp):
            return isinstance(e.op, (ast.Add, ast.Sub, ast.Mult)) and self.plain(e.left) and self.plain(e.right)
        if isinstance(e, ast.Compare):
            return len(e.ops) == 1 and isinstance(e.ops[0], (ast.Lt, ast.LtE, ast.Gt, ast.GtE, ast.Eq, ast.NotEq)) and \
                self.plain(e.left) and self.plain(e.comparators[0])
        if isinstance(e, ast.Call):
            return isinstance(e.func, ast.Attribute) and isinstance(e.func.value, ast.Name) and \
                e.func.value.id == 'np' and e.func.attr in ('int64', 'float64') and len(e.args) == 1 and \
                not e.keywords and self.plain(e.args[0])
        return False

    def merge_if(self, s):
        """if statements that only assign scalars to local names become conditional values; None if not of that kind"""
        def ok(body):
            for x in body:
                if isinstance(x, ast.Assign):
                    if not (len(x.targets) == 1 and isinstance(x.targets[0], ast.Name) and self.plain(x.value)):
                        return False
                    if x.targets[0].id in getattr(self.cur, 'hints', ()):
                        return False
                elif isinstance(x, ast.If):
                    if not (self.plain(x.test) and ok(x.body) and ok(x.orelse)):
                        return False
                elif not isinstance(x, ast.Pass):
                    return False
            return True

        if self.spec or not (self.plain(s.test) and ok(s.body) and ok(s.orelse)):
            return False

        def scalar(v):
            return isinstance(v, (int, float, bool)) or isinstance(v, SV) and isinstance(v.t, (TInt, TReal, TBool))

        names = {x.id for y in s.body + s.orelse + [s.test] for x in ast.walk(y) if isinstance(x, ast.Name) and x.id != 'np'}
        env = self.env()
        if any(n in self.frame.nonlocals for n in names):
            return False
        stored = {x.id for y in s.body + s.orelse for x in ast.walk(y) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
        if any(n in self.frame.locals_t for n in stored):
            return False
        for n in names:
            if n in env and not scalar(env[n]):
                return False
            if n not in env and n not in stored:
                return False

        def run(body, e):
            for x in body:
                saved = self.st.frames[self.frame.fid]
                self.st.frames[self.frame.fid] = e
                try:
                    if isinstance(x, ast.Assign):
                        v = self.ev(x.value)
                        if not scalar(v):
                            raise NeedBranch()
                        e[x.targets[0].id] = v
                    elif isinstance(x, ast.If):
                        c = as_bool(b(self.truth(self.ev(x.test))))
                        p, q = dict(e), dict(e)
                        run(x.body, p)
                        run(x.orelse, q)
                        if isinstance(c, bool):
                            e.update(p if c else q)
                            continue
                        for n in set(p) | set(q):
                            if p.get(n) is q.get(n):
                                if n in p:
                                    e[n] = p[n]
                                continue
                            if n not in p or n not in q:
                                raise NeedBranch()
                            e[n] = self.merge(c, p[n], q[n])
                finally:
                    self.st.frames[self.frame.fid] = saved

        e = dict(env)
        nv, cnt = len(self.vcs), self.cnt
        npc = len(self.st.pc)
        self.nobranch += 1
        try:
            run([s], e)
        except (NeedBranch, Unsupported, PyRaise):
            e = None
        finally:
            self.nobranch -= 1
        if e is None or len(self.vcs) != nv or len(self.st.pc) != npc:
            del self.vcs[nv:]
            del self.st.pc[npc:]
            return False
        for n in stored:
            if n in e and e[n] is not env.get(n):
                self.bind_name(n, e[n])
        return True

    def ex_If(self, s):
        if self.merge_if(s):
            return
        c = self.test(s.test)
        if self.branch(c):
            self.block(s.body)
        else:
            self.block(s.orelse)

    def ex_Assert(self, s):
        c = self.test(s.test)
        self.py_check(c, 'AssertionError', 'assert')

    def ex_Raise(self, s):
        if s.exc is None:
            raise PyRaise(self.active_exc or 'Exception', (), 're-raise')
        e = s.exc
        name, args = None, ()
        if isinstance(e, ast.Call):
            f = self.ev(e.func)
            try:
                args = tuple(self.ev(a) for a in e.args)
            except Unsupported:
                args = ()
        else:
            f = self.ev(e)
        if isinstance(f, Ext):
            name = f.path.split('.')[-1]
        elif isinstance(f, ClassV):
            name = f.name
        elif isinstance(f, Raised):
            name = f.cls
        else:
            raise Unsupported('raise %r' % (f,))
        raise PyRaise(name, args, 'line %d' % s.lineno)

    active_exc = None

    def ex_Try(self, s):
        names = []
        for h in s.handlers:
            if h.type is None:
                names.append(['BaseException'])
            else:
                ts = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
                names.append([x.id if isinstance(x, ast.Name) else x.attr for x in ts])
        self.trydepth.append([n for g in names for n in g])
        try:
            try:
                self.block(s.body)
            finally:
                self.trydepth.pop()
        except PyRaise as e:
            for h, g in zip(s.handlers, names):
                if any(exc_isa(e.cls, n) for n in g):
                    if h.name:
                        self.bind_name(h.name, Raised(e.cls, e.eargs))
                    old, self.active_exc = self.active_exc, e.cls
                    self.block(h.body)
                    self.active_exc = old
                    self.block(s.finalbody)
                    return
            self.block(s.finalbody)
            raise
        except (ReturnEx, BreakEx, ContinueEx):
            self.block(s.finalbody)
            raise
        self.block(s.orelse)
        self.block(s.finalbody)

    def ex_Delete(self, s):
        for t in s.targets:
            if isinstance(t, ast.Subscript):
                self.delitem(self.ev(t.value), self.ev_index(t.slice))
            elif isinstance(t, ast.Name):
                self.env().pop(t.id, None)
            else:
                raise Unsupported('del')

    def ex_FunctionDef(self, s):
        fv = FuncV(s, self.frame.mod, self.frame, self.frame.qual + '.<locals>.' + s.name)
        self.st.frames[self.frame.fid][s.name] = fv

    def ex_ClassDef(self, s):
        s._qualname = self.frame.qual.split(':')[1] + '.<locals>.' + s.name
        self.st.frames[self.frame.fid][s.name] = ClassV(s.name, self.frame.mod, s, self.frame)

    def ex_Import(self, s):
        for a in s.names:
            n = a.asname or a.name.split('.')[0]
            p = a.name if a.asname else a.name.split('.')[0]
            self.st.frames[self.frame.fid][n] = ModV(p) if self.prog.module(p) else self.ext(p)

    def ex_ImportFrom(self, s):
        base = self.frame.mod.resolve_from(s)
        for a in s.names:
            if self.prog.module(base) is None:
                v = self.ext(base + '.' + a.name)
            else:
                v = self.resolved(self.prog.find(base, a.name), a.name)
            self.st.frames[self.frame.fid][a.asname or a.name] = v

    def ex_Global(self, s):
        raise Unsupported('global statement')

    def ex_Nonlocal(self, s):
        self.frame.nonlocals |= set(s.names)

    def ex_Break(self, s):
        raise BreakEx()

    def ex_Continue(self, s):
        raise ContinueEx()

    def ex_With(self, s):
        raise Unsupported('with statement')

    # ------------------------------------------------------------ loops
    def ex_For(self, s):
        src = self.seq_of(self.ev(s.iter))
        if isinstance(src.n, int) and src.n <= UNROLL:
            broke = False
            for i in range(src.n):
                self.assign_target(s.target, src.get(i))
                try:
                    self.block(s.body)
                except BreakEx:
                    broke = True
                    break
                except ContinueEx:
                    pass
            if not broke:
                self.block(s.orelse)
            return
        self.sym_loop(s, src)

    def ex_While(self, s):
        c = None
        n = 0
        # concrete conditions are unrolled
        while n < UNROLL:
            mark = len(self.st.pc)
            try:
                c = self.probe(lambda: self.test(s.test))
            except NeedBranch:
                c = None
            if not isinstance(c, bool):
                break
            if not c:
                self.block(s.orelse)
                return
            try:
                self.block(s.body)
            except BreakEx:
                return
            except ContinueEx:
                pass
            n += 1
        self.sym_loop(s, None)

    def probe(self, thunk):
        """evaluate only to see whether the condition is concrete"""
        st, vcs, cnt, addr = self.st, list(self.vcs), self.cnt, self.addr
        self.st = self.st.copy()
        self.nobranch += 1
        try:
            return thunk()
        finally:
            self.nobranch -= 1
            self.st, self.vcs, self.cnt, self.addr = st, vcs, cnt, addr

    def loop_site(self, s):
        return tuple((f.qual, getattr(f, 'callline', 0)) for f in self.callstack) + ((s.lineno, s.col_offset),)

    def loop_spec(self, s):
        site = self.loop_site(s)
        if site not in self.loop_order:
            self.loop_order[site] = len(self.loop_order)
        k = self.loop_order[site]
        perm = self.cur.loop_perm
        k2 = perm[k] if perm and k < len(perm) else k
        specs = self.cur.loops
        sp = specs[k2] if k2 < len(specs) else None
        return site, k, sp

    def spec_eval(self, text, extra=None, frame=None):
        """evaluate a specification expression in the current frame; returns bool or term"""
        e = self.reg.parse(text) if isinstance(text, str) else text
        saved, self.spec_env = self.spec_env, dict(self.spec_env, **(extra or {}))
        self.spec += 1
        fr = None
        if frame is not None:
            self.callstack.append(frame)
        try:
            return self.truth(self.ev(e))
        finally:
            if frame is not None:
                self.callstack.pop()
            self.spec -= 1
            self.spec_env = saved

    def ghost_exec(self, text, extra=None):
        if not text:
            return
        saved, self.spec_env = self.spec_env, dict(self.spec_env, **(extra or {}))
        sp, self.spec = self.spec, 1
        try:
            for st in ast.parse(text).body:
                if isinstance(st, ast.Assign):
                    v = self.ev(st.value)
                    t = st.targets[0]
                    v = self.ghost_copy(v)
                    self.spec = 0
                    v = self.named_array(v) if isinstance(v, LazyArr) and len(v.shape) == 1 else v
                    if isinstance(t, ast.Name):
                        self.bind_name(t.id, v)
                    elif isinstance(t, ast.Attribute):      # ghost field of an object
                        if any(isinstance(x, ast.Attribute) and x.attr == t.attr for x in ast.walk(self.prog.function(self.cur.qual.split('#')[0])[2])):
                            raise Unsupported('%s is no ghost field' % t.attr)
                        self.assign_target(t, v)
                    else:
                        self.spec = 1
                        base, ix = self.ev(t.value), self.ev_index(t.slice)
                        self.spec = 0
                        self.ghost_store(base, ix, v)
                    self.spec = 1
                elif isinstance(st, ast.Expr) and isinstance(st.value, ast.Call):
                    f = st.value
                    if f.func.id == 'check':
                        g = self.truth(self.ev(f.args[0]))
                        lab = f.args[1].value if len(f.args) > 1 else 'ghost-assertion'
                        self.spec = 0
                        self.oblige(lab, g, 'hint')
                        self.spec = 1
                    elif f.func.id == 'use':
                        g = self.truth(self.ev(f.args[0]))
                        self.reg.check_lemma_only(f.args[0])
                        self.assume(g)
                    else:
                        raise Unsupported('ghost statement')
                else:
                    raise Unsupported('ghost statement')
        finally:
            self.spec = sp
            self.spec_env = saved

    def named_array(self, v):
        """a new array constant with the elements of v (usable in patterns, unlike a lambda term)"""
        h = self.new_cell(TArr(v.e), [iz(v.shape[0]), self.fresh('garr', z3.ArraySort(z3.IntSort(), v.e.sort))])
        arr, i = self.read(h.loc)[1], z3.Const('ga%d' % self.cnt, z3.IntSort())
        self.cnt += 1
        self.spec += 1
        try:
            x = self.scalar(v.fn(i), v.e)
        finally:
            self.spec -= 1
        self.assume(z3.ForAll([i], sel(arr, i) == x, patterns=[sel(arr, i)]))
        return h

    def ghost_copy(self, v):
        if isinstance(v, Handle) and self.cell(v) is None:
            t = self.loc_t(v.loc)
            return self.new_cell(t, self.read(v.loc))
        return v

    def ghost_store(self, base, ix, v):
        if self.is_arr(base):
            base = base if isinstance(base, Handle) else base
            t = self.loc_t(base.loc)
            terms = self.read(base.loc)
            ixs = ix if isinstance(ix, tuple) else (ix,)
            terms[-1] = store_nd(terms[-1], [self.scalar(i, Int) for i in ixs], self.scalar(v, t.e))
            self.write(base.loc, terms)
        else:
            self.setitem(base, ix, v)

    def havoc(self, ms, spec):
        st = self.st
        for key, t in sorted(ms.items(), key=lambda kv: repr(kv[0])):
            if key[0] == 'name':
                env = st.frames.get(key[1])
                if env is None or key[2] not in env:
                    continue
                old = env[key[2]]
                if t is POISON or old is POISON:
                    env[key[2]] = POISON
                    continue
                ot = self.type_of(old)
                try:
                    jt = self.join(ot, t)
                except Unsupported:         # unrelated types before and in the loop: unreadable until assigned again
                    self.note_write(key, t)
                    env[key[2]] = POISON
                    continue
                if jt != t:
                    ms[key] = jt
                if isinstance(jt, TConst):
                    if jt == ot:
                        continue
                if isinstance(jt, TOpt) and isinstance(jt.t, TConst) or isinstance(jt, TConst):
                    raise Unsupported('loop changes non-first-order variable %s' % key[2])
                if isinstance(old, Handle) and is_container(jt) and isinstance(jt, TArr):
                    nv = self.symbolic(jt, key[2])
                elif is_container(jt) and (jt_incomplete(jt)):
                    raise Unsupported('type of %s in loop unknown' % key[2])
                else:
                    nv = self.symbolic(jt, key[2])
                self.note_write(key, jt)
                env[key[2]] = nv
            elif key[0] == 'cell':
                a = key[1]
                c = st.cells[a]
                while isinstance(c, Forward):
                    c = None
                if c is None:
                    raise Unsupported('moved container changed in loop')
                if isinstance(c, PyCell):
                    if t is None or jt_incomplete(t):
                        raise Unsupported('element type of container built in loop unknown')
                    self.promote(Handle(Root(a)), t)
                    c = st.cells[a]
                self.note_write(key, c.t)
                dims = c.terms[:c.t.nd] if isinstance(c.t, TArr) else ()
                terms = list(dims) + [self.fresh('h%d' % a, s) for s in sorts(c.t)[len(dims):]]
                self.assume(self.wf(c.t, terms))
                st.cells[a] = SymCell(c.t, terms)
            elif key[0] == 'obj':
                cls, fields = st.objs[key[1]]
                old = fields.get(key[2], UNDEF)
                if old is UNDEF:
                    raise Unsupported('field %s first set in loop' % key[2])
                jt = self.join(self.type_of(old), t)
                ms[key] = jt
                if isinstance(jt, TConst) or is_container(jt) and jt_incomplete(jt):
                    raise Unsupported('loop changes non-first-order field %s' % key[2])
                self.note_write(key, jt)
                fields[key[2]] = self.symbolic(jt, key[2])
            elif key[0] == 'farr':
                self.note_write(key, None)
                arrs = tuple(self.fresh('%s.%s' % key[1:], x.sort()) for x in st.farr[key[1:]])
                st.farr[key[1:]] = arrs
                rt = self.reg.refs[key[1]].fields[key[2]]
                r = z3.Const('r', z3.IntSort())
                w = self.wf(rt, [sel(x, r) for x in arrs])
                if w is not True:
                    self.assume(z3.ForAll([r], z3.Implies(z3.And(0 <= r, r < st.alloc[key[1]]), w)))
            elif key[0] == 'alloc':
                self.note_write(key, None)
                n = self.fresh('alloc', z3.IntSort())
                self.assume(n >= st.alloc[key[1]])
                st.alloc[key[1]] = n

    def sym_loop(self, s, src):
        site, order, spec = self.loop_spec(s)
        if spec is None:
            raise Unsupported('loop at line %d of %s without invariant' % (s.lineno, self.frame.qual))
        inv = spec.inv if spec else []
        self.loops_seen.add(order)
        kname = spec.index if spec else '_k'
        ms = self.modsets.setdefault(site, {})
        if spec and spec.init:
            self.ghost_exec(spec.init, {'_n': self.nval(src)} if src else {})
        isfor = src is not None
        n = iz(src.n) if isfor else None
        base_env = {'_n': mk(Int, n), '_it': src} if isfor else {}

        def inv_terms(k):
            env = dict(base_env)
            env[kname] = k
            out = []
            for item in inv:
                lab, text = item if isinstance(item, tuple) else ('inv%d' % (len(out) + 1), item)
                out.append((lab, self.spec_eval(text, env)))
            return out

        lname = 'loop%d' % (order + 1)
        mark = self.addr
        k0 = 0
        if spec and spec.use_init:
            self.ghost_exec(spec.use_init, dict(base_env, **{kname: 0}))
        for lab, g in inv_terms(k0):
            self.oblige('%s/entry/%s' % (lname, lab), g, 'invariant')
        fids = set(self.st.frames)
        pre_names = {f: set(e) for f, e in self.st.frames.items()}
        # havoc everything the loop may change
        self.havoc(ms, spec)
        if isfor:
            conds = [as_bool(n > 0), True]
        else:
            conds = [True, True]
        mark2 = mark
        alt = self.choose(conds)
        if alt == 0:
            k = mk(Int, self.fresh('k', z3.IntSort()))
            kz = self.scalar(k, Int)
            self.assume(kz >= 0)
            if isfor:
                self.assume(kz < n)
            for _, g in inv_terms(k):
                self.assume(g)
            variant = None
            if not isfor and spec and spec.decreases:
                variant = self.ghost_val(spec.decreases, {kname: k})
            w = {'mark': mark2, 'fids': fids, 'modset': ms}
            self.watchers.append(w)
            kenv = dict(base_env)
            kenv[kname] = k
            saved_env, self.spec_env = self.spec_env, dict(self.spec_env, **{kname + '_outer': k, kname: k})
            try:
                if isfor:
                    self.assign_target(s.target, src.get(kz))
                else:
                    if not self.branch(self.test(s.test)):
                        raise PathEnd()
                if spec and spec.use_start:
                    self.ghost_exec(spec.use_start, kenv)
                try:
                    self.block(s.body)
                except ContinueEx:
                    pass
                if spec and spec.step:
                    self.ghost_exec(spec.step, kenv)
                self.cur_where = '%s line %d (end of loop body)' % (self.frame.qual, s.lineno)
                k1 = mk(Int, z3.simplify(kz + 1))
                for lab, g in inv_terms(k1):
                    self.oblige('%s/preserve/%s' % (lname, lab), g, 'invariant')
                if variant is not None:
                    v2 = self.ghost_val(spec.decreases, {kname: k1})
                    self.oblige('%s/terminates' % lname,
                                z3.And(self.scalar(variant, Int) >= 0, self.scalar(v2, Int) < self.scalar(variant, Int)),
                                'termination')
                raise PathEnd()
            except BreakEx:
                self.watchers.pop()
                self.spec_env = saved_env
                if spec and spec.use_break:
                    self.ghost_exec(spec.use_break, kenv)
                return
            except BaseException:
                if w in self.watchers:
                    self.watchers.remove(w)
                self.spec_env = saved_env
                raise
        # after the loop
        if isfor:
            kn = mk(Int, n)
            for _, g in inv_terms(kn):
                self.assume(g)
            self.after_targets(s.target, src, n, pre_names, s.body)
            if spec and spec.use_end:
                self.ghost_exec(spec.use_end, dict(base_env, **{kname: kn}))
        else:
            kz = self.fresh('k', z3.IntSort())
            self.assume(kz >= 0)
            for _, g in inv_terms(mk(Int, kz)):
                self.assume(g)
            c = self.test(s.test)
            if self.branch(c):
                raise PathEnd()
            if spec and spec.use_end:
                self.ghost_exec(spec.use_end, {kname: mk(Int, kz)})
        self.block(s.orelse)

    loops_seen = set()

    def ghost_val(self, text, extra):
        saved, self.spec_env = self.spec_env, dict(self.spec_env, **extra)
        self.spec += 1
        try:
            return self.ev(self.reg.parse(text))
        finally:
            self.spec -= 1
            self.spec_env = saved

    def nval(self, src):
        return mk(Int, iz(src.n))

    def after_targets(self, t, src, n, pre_names, body=()):
        again = {x.id for st in body for x in ast.walk(st) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
        names = [x.id for x in ast.walk(t) if isinstance(x, ast.Name) and x.id not in again]
        env = self.env()
        new = [x for x in names if x not in pre_names.get(self.frame.fid, ())]
        try:
            fr = self.new_frame(self.frame.mod, self.frame, self.frame.qual)
            sp, self.spec = self.spec, self.spec + 1
            try:
                self.assign_target(t, src.get(n - 1), local=fr)
            finally:
                self.spec = sp
            tmp = self.st.frames.pop(fr.fid)
        except (Unsupported, KeyError):
            return
        for x in names:
            if x in tmp:
                if x in new:
                    env[x] = MaybeUnbound(tmp[x], as_bool(n > 0))
                else:
                    self.note_write(('name', self.frame.fid, x), self.type_of(tmp[x]))
                    try:
                        env[x] = self.merge(n > 0, tmp[x], env[x])
                    except Unsupported:
                        env[x] = MaybeUnbound(tmp[x], as_bool(n > 0))

    # ------------------------------------------------------------ calls
    def ev_Call(self, e):
        if isinstance(e.func, ast.Name):
            sf = self.spec_form(e) if self.spec else None
            if sf is not None:
                return sf[0]
            if e.func.id == 'super' and (not e.args or self.own_super(e)):
                return self.super_proxy()
            if e.func.id in ('map', 'filter', 'zip'):
                pass
        f = self.ev(e.func)
        if isinstance(f, Builtin) and f.name in ('any', 'all') and len(e.args) == 1 and isinstance(e.args[0], ast.GeneratorExp) \
                and len(e.args[0].generators) > 1 and not self.spec:
            # any(x for a in A for b in B) is any(any(x for b in B) for a in A)
            g = e.args[0]
            inner = ast.Call(func=e.func, args=[ast.GeneratorExp(elt=g.elt, generators=g.generators[1:])], keywords=[])
            outer = ast.Call(func=e.func, args=[ast.GeneratorExp(elt=inner, generators=g.generators[:1])], keywords=[])
            return self.ev(ast.fix_missing_locations(ast.copy_location(outer, e)))
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                sv = self.ev(a.value)
                if isinstance(f, Builtin) and f.name == 'zip':
                    args.append(('*', sv))
                    continue
                sq = self.seq_of(sv)
                if not isinstance(sq.n, int) and isinstance(f, Method) and f.name in ('append', 'add') and len(e.args) == 1:
                    self.py_check(as_bool(sq.n == 1), 'TypeError', 'exactly-one-argument')
                    args.append(sq.get(0))
                    continue
                if not isinstance(sq.n, int):
                    raise Unsupported('star argument of unknown length')
                args += [sq.get(i) for i in range(sq.n)]
            else:
                args.append(self.ev(a))
        kw = {}
        for k in e.keywords:
            if k.arg is None:
                d = self.ev(k.value)
                c = self.cell(d) if isinstance(d, Handle) else None
                if c is None and isinstance(f, Builtin) and f.name in ('dict', 'dict.update') and isinstance(d, Handle):
                    if self.branch(as_bool(self.read(d.loc)[0] == 0)):
                        continue
                    kw['**'] = d
                    continue
                if c is None:
                    raise Unsupported('** of unknown dictionary')
                for kk, vv in c.items:
                    kw[kk] = vv
            else:
                kw[k.arg] = self.ev(k.value)
        line = getattr(e, 'lineno', 0)
        old = getattr(self, 'callline', 0)
        self.callline = line
        where = self.cur_where
        try:
            return self.call(f, args, kw)
        finally:
            self.callline = old
            self.cur_where = where

    def own_super(self, e):
        """super(C, self) inside a method of C"""
        f = self.frame
        while f is not None and f.cls is None:
            f = f.parent
        return f is not None and len(e.args) == 2 and isinstance(e.args[0], ast.Name) and isinstance(e.args[1], ast.Name) \
            and f.cls[1].name == e.args[0].id and e.args[1].id == f.self_name

    def super_proxy(self):
        f = self.frame
        while f is not None and f.cls is None:
            f = f.parent
        if f is None:
            raise Unsupported('super')
        selfv = self.st.frames[f.fid][f.self_name]
        return Super(f.cls, selfv)

    def call(self, f, args, kw):
        f = self.unopt(f)
        if isinstance(f, FuncV):
            return self.call_func(f, args, kw)
        if isinstance(f, ExtObj):
            return self.apply_contract(f.contract, f.bound, args, kw)
        if isinstance(f, Builtin):
            return f.fn(*args, **kw)
        if isinstance(f, Method):
            return self.call_method(f, args, kw)
        if isinstance(f, ClassV):
            return self.instantiate(f, args, kw)
        if isinstance(f, Ext):
            return self.call_ext(f, args, kw)
        if isinstance(f, TFun):
            z = z3.Function(f.name, *([self.flatten(a, self.type_of(a))[0].sort() for a in args] + [f.ret.sort]))
            return SV(f.ret, z(*[self.flatten(a, self.type_of(a))[0] for a in args]))
        if isinstance(f, NTClass):
            vals = list(args) + [kw[n] for n in f.names[len(args):]]
            return mknt(vals, f.names)
        if isinstance(f, ObjV):
            m = self.getattr_or_none(f, '__call__')
            if m is not None:
                return self.call(m, args, kw)
        if isinstance(f, SV) and isinstance(f.t, TNode):
            return self.call_opaque(f, args, kw)
        raise Unsupported('call of %r' % (f,))

    def call_opaque(self, f, args, kw):
        h = self.reg.opaque_call
        if h is None:
            raise Unsupported('call of an opaque value')
        return self.apply_contract(h, f, args, kw)

    def call_func(self, f, args, kw):
        if f.kind != 'lambda' and not isinstance(f.node, ast.Lambda):
            c = self.reg.contract_for(f.qual)
            if c is not None and not (c is self.cur and not self.callstack):
                if not c.inline and (c.when is None or c.when(self, args)):
                    bound = f.bound
                    return self.apply_contract(c, bound, args, kw, f)
        return self.inline(f, args, kw)

    def bind_args(self, f, args, kw, fr):
        node = f.node
        a = node.args
        env = self.st.frames[fr.fid]
        args = list(args)
        if f.bound is not None:
            args = [f.bound] + args
        names = [x.arg for x in a.posonlyargs + a.args]
        if f.bound is not None and names:
            fr.self_name = names[0]
        if len(args) > len(names) and a.vararg is None:
            raise Unsupported('too many arguments for %s' % f.qual)
        kw = dict(kw)
        for i, n in enumerate(names):
            if i < len(args):
                env[n] = args[i]
            elif n in kw:
                env[n] = kw.pop(n)
            else:
                j = i - (len(names) - len(a.defaults))
                if j < 0:
                    raise Unsupported('missing argument %s of %s' % (n, f.qual))
                env[n] = self.default_value(a.defaults[j], f)
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            if x.arg in kw:
                env[x.arg] = kw.pop(x.arg)
            elif d is not None:
                env[x.arg] = self.default_value(d, f)
        if a.vararg is not None:
            env[a.vararg.arg] = tuple(args[len(names):])
        if kw:
            if a.kwarg is None:
                raise Unsupported('unexpected keyword arguments %s for %s' % (sorted(kw), f.qual))
            env[a.kwarg.arg] = self.new_py('dict', list(kw.items()))
        elif a.kwarg is not None:
            env[a.kwarg.arg] = self.new_py('dict', [])
        for n in list(env):
            if isinstance(env[n], LazyArr):
                env[n] = self.settle(env[n])

    def default_value(self, d, f):
        fr = self.new_frame(f.mod, f.frame, f.qual)
        self.callstack.append(fr)
        try:
            return self.ev(d)
        finally:
            self.callstack.pop()

    def inline(self, f, args, kw):
        if len(self.callstack) > MAX_INLINE or sum(1 for x in self.callstack if x.qual == f.qual) > 3 and \
                '<lambda>' not in f.qual:
            raise Unsupported('recursion without contract: %s' % f.qual)
        fr = self.new_frame(f.mod, f.frame, f.qual, f.cls, self.reg.locals_for(f.qual))
        fr_line = getattr(self, 'callline', 0)
        self.bind_args(f, args, kw, fr)
        if isinstance(f.node, ast.Lambda):
            self.callstack.append(fr)
            try:
                return self.ev(f.node.body)
            finally:
                self.callstack.pop()
        self.inlined.add(f.qual)
        if self.spec:
            return self.spec_inline(f, fr)
        isgen = is_generator(f.node)
        if isgen:
            self.st.frames[fr.fid]['_yielded'] = self.new_py('list', [])
        self.callstack.append(fr)
        try:
            self.block(f.node.body)
            r = None
        except ReturnEx as e:
            r = e.v
        finally:
            self.callstack.pop()
        if isgen:
            return self.st.frames[fr.fid]['_yielded']
        return r

    def spec_inline(self, f, fr):
        """a pure function used in a specification: single return expression after simple guards"""
        self.callstack.append(fr)
        try:
            return self.spec_block(f.node.body)
        finally:
            self.callstack.pop()

    def spec_block(self, body):
        for i, s in enumerate(body):
            if isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant):
                continue
            if isinstance(s, ast.Return):
                return self.ev(s.value)
            if isinstance(s, ast.If):
                c = self.truth(self.ev(s.test))
                rest = body[i + 1:]
                if isinstance(c, bool):
                    return self.spec_block((s.body if c else s.orelse) + rest)
                return self.merge(c, self.spec_block(s.body + rest), self.spec_block(s.orelse + rest))
            raise Unsupported('function not usable in a specification')
        return None

    def instantiate(self, cv, args, kw):
        bases = self.prog.ext_bases(cv.mod, cv.node)
        if bases & {'Enum', 'IntEnum'}:
            raise Unsupported('enum lookup by value')
        key = '%s:%s' % (cv.mod.name, cv.name)
        for name, rc in self.reg.refs.items():
            if rc.qual == key and rc.construct:
                r = self.st.alloc[name]
                self.note_write(('alloc', name), None)
                self.st.alloc[name] = z3.simplify(r + 1)
                obj = SV(TRef(name), r)
                break
        else:
            obj = self.new_obj(cv)
        init = self.find_method(cv, '__init__')
        if isinstance(init, FuncV):
            self.call_func(init.bind(obj), args, kw)
        elif self.is_dataclass(cv):
            self.dataclass_init(cv, obj, args, kw)
        elif args or kw:
            if bases & EXC:
                return Raised(cv.name, args)
            raise Unsupported('constructor of %s' % cv.name)
        return obj

    def is_dataclass(self, cv):
        return any((isinstance(d, ast.Name) and d.id == 'dataclass') for m, c in self.prog.mro(cv.mod, cv.node)
                   for d in c.decorator_list)

    def dataclass_init(self, cv, obj, args, kw):
        fields = {}
        for m, c in reversed(self.prog.mro(cv.mod, cv.node)):
            for st in c.body:
                if isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name):
                    fields[st.target.id] = (m, st.value)
        names = list(fields)
        vals = dict(zip(names, args))
        vals.update(kw)
        for n in names:
            if n in vals:
                v = vals[n]
            else:
                m, d = fields[n]
                if d is None:
                    raise Unsupported('missing dataclass field %s' % n)
                fr = self.new_frame(m, None, m.name)
                self.callstack.append(fr)
                try:
                    v = self.ev(d)
                finally:
                    self.callstack.pop()
            self.setattr(obj, n, v, declared=False)


class Raised:
    def __init__(self, cls, args=()):
        self.cls, self.args = cls, args


class Super:
    def __init__(self, cls, selfv):
        self.cls, self.selfv = cls, selfv


class NTClass:
    def __init__(self, name, names):
        self.name, self.names = name, tuple(names)


def is_generator(node):
    todo = list(node.body)
    while todo:
        x = todo.pop()
        if isinstance(x, (ast.FunctionDef, ast.ClassDef, ast.Lambda)):
            continue
        if isinstance(x, (ast.Yield, ast.YieldFrom)):
            return True
        todo.extend(ast.iter_child_nodes(x))
    return False


def jt_incomplete(t):
    if t is None:
        return True
    if isinstance(t, TList):
        return jt_incomplete(t.e)
    if isinstance(t, TSet):
        return jt_incomplete(t.k)
    if isinstance(t, TDict):
        return jt_incomplete(t.k) or jt_incomplete(t.v)
    if isinstance(t, TTuple):
        return any(jt_incomplete(x) for x in t.ts)
    if isinstance(t, TOpt):
        return jt_incomplete(t.t)
    return isinstance(t, TConst)


_lit_inv = {}


def lit_of(z):
    if z3.is_const(z):
        n = z.decl().name()
        if n.startswith('lit:'):
            from . import vals
            ix = int(n.split(':')[1])
            return list(vals._lits)[ix]
    return None


def fold(z):
    a, c = z.children() if z.num_args() == 2 else (None, None)
    if a is not None and z3.is_int_value(a) and z3.is_int_value(c):
        return z3.simplify(z)
    if z.sort() == z3.IntSort() and a is not None and (z3.is_int_value(a) or z3.is_int_value(c)):
        return z3.simplify(z)
    return z


def store_nd(arr, ixs, v):
    if len(ixs) == 1:
        return sto(arr, ixs[0], v)
    return sto(arr, ixs[0], store_nd(sel(arr, ixs[0]), ixs[1:], v))


def sel_nd(arr, ixs):
    for i in ixs:
        arr = sel(arr, i)
    return arr


"""Symbolic interpreter over the real Python syntax trees: generates verification conditions."""
import ast
import re

from .vals import *
from .program import Program

MAX_INLINE = 40
UNROLL = 64


class Restart(Exception):
    pass


class NT(tuple):
    """named tuple value"""
    names = ()


def mknt(items, names):
    x = NT(items)
    x.names = tuple(names)
    return x


class MaybeUnbound:
    __slots__ = ('v', 'cond')

    def __init__(self, v, cond):
        self.v, self.cond = v, cond


POISON = MaybeUnbound(None, None)


class Frame:
    __slots__ = ('fid', 'mod', 'parent', 'qual', 'cls', 'self_name', 'locals_t', 'globals_', 'nonlocals')

    def __init__(self, fid, mod, parent, qual, cls=None, locals_t=None):
        self.fid, self.mod, self.parent, self.qual, self.cls = fid, mod, parent, qual, cls
        self.locals_t = locals_t or {}
        self.self_name = None
        self.nonlocals = set()


class State:
    __slots__ = ('frames', 'cells', 'objs', 'farr', 'alloc', 'pc')

    def __init__(self):
        self.frames, self.cells, self.objs, self.farr, self.alloc, self.pc = {}, {}, {}, {}, {}, []

    def copy(self):
        s = State()
        s.frames = {k: dict(v) for k, v in self.frames.items()}
        s.cells = {k: v.copy() for k, v in self.cells.items()}
        s.objs = {k: (c, dict(f)) for k, (c, f) in self.objs.items()}
        s.farr = dict(self.farr)
        s.alloc = dict(self.alloc)
        s.pc = list(self.pc)
        return s


class VC:
    __slots__ = ('name', 'hyps', 'goal', 'where', 'kind', 'group')

    def __init__(self, name, hyps, goal, where, kind):
        self.name, self.hyps, self.goal, self.where, self.kind = name, hyps, goal, where, kind
        self.group = ''


_qcache = {}


def has_quant(t):
    k = t.get_id()
    if k in _qcache and _qcache[k][0].eq(t):
        return _qcache[k][1]
    seen, todo, r = set(), [t], False
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            r = True
            break
        todo.extend(x.children())
    _qcache[k] = (t, r)
    return r


class Core:
    def __init__(self, prog, reg):
        self.prog, self.reg = prog, reg
        self.vcs = []
        self.modsets = {}
        self.notes = []
        self.assumed = set()
        self.inlined = set()
        self.used_contracts = set()
        self.loop_order = {}
        self.feas_checks = 0
        self.feas_limit = 400000
        self.cur = None
        self.reset()

    # ------------------------------------------------------------ exploration
    def reset(self):
        self.st = State()
        self.cnt = 0
        self.addr = 0
        self.fidc = 0
        self.spec = 0
        self.nobranch = 0
        self.binders = []
        self.selections = {}
        self.watchers = []
        self.trydepth = []
        self.callstack = []
        self.levels = []
        self.old_st = None
        self.cur_where = ''
        self.sites = []

    def push_level(self, prefix):
        self.levels.append({'prefix': prefix, 'dec': [], 'pending': []})

    def emitting(self):
        return all(len(l['dec']) >= len(l['prefix']) for l in self.levels)

    def choose(self, conds):
        """conds: list of z3 conditions (or True) for the alternatives; returns index, condition is assumed"""
        if self.spec:
            raise Unsupported('branch in specification')
        if self.nobranch:
            raise NeedBranch()
        l = self.levels[-1]
        p = len(l['dec'])
        if p < len(l['prefix']):
            d = l['prefix'][p]
        else:
            feas = [i for i, c in enumerate(conds) if self.feasible(c)]
            if not feas:
                raise PathEnd()
            d = feas[0]
            for i in feas[1:]:
                l['pending'].append(l['dec'] + [i])
        l['dec'].append(d)
        if conds[d] is not True:
            self.st.pc.append(('C', b(conds[d])))
        return d

    def branch(self, c):
        c = as_bool(c)
        if isinstance(c, bool):
            return c
        return self.choose([c, z3.Not(c)]) == 0

    def feasible(self, c):
        if c is True:
            return True
        if c is False:
            return False
        s = z3.Solver()
        s.set('rlimit', self.feas_limit)
        for _, f in self.st.pc:
            if not has_quant(f):
                s.add(f)
        c = b(c)
        if has_quant(c):
            return True
        s.add(c)
        self.feas_checks += 1
        return s.check() != z3.unsat

    def explore(self, thunk, limit=400):
        work, n = [[]], 0
        while work:
            n += 1
            if n > limit:
                raise Unsupported('more than %d paths' % limit)
            pre = work.pop()
            self.reset()
            self.push_level(pre)
            try:
                thunk()
            except PathEnd:
                pass
            work.extend(reversed(self.levels[0]['pending']))
        return n

    def explore_pure(self, thunk, limit=64):
        """explore thunk (no side effects on existing state); returns list of (condition, value)"""
        if self.nobranch and False:
            pass
        base = self.st
        saved_pc = list(base.pc)
        work, out, facts = [[]], [], []
        nb, self.nobranch = self.nobranch, 0
        try:
            n = 0
            while work:
                n += 1
                if n > limit:
                    raise Unsupported('too many paths in pure expression')
                pre = work.pop()
                self.push_level(pre)
                self.st = base.copy()
                mark = self.addr
                try:
                    v = thunk()
                    delta = self.st.pc[len(saved_pc):]
                    conds = []
                    for kind, f in delta:
                        if kind == 'C':
                            conds.append(f)
                        else:
                            facts.append(Implies_(And_(*conds), f))
                    # keep cells allocated meanwhile
                    for a, c in self.st.cells.items():
                        if a >= mark or a not in base.cells:
                            base.cells[a] = c
                        elif not same_cell(c, base.cells[a]):
                            raise Unsupported('side effect in pure expression')
                    for a, (c, f) in self.st.objs.items():
                        if a not in base.objs:
                            base.objs[a] = (c, f)
                        elif f.keys() != base.objs[a][1].keys() or any(f[k] is not base.objs[a][1][k] for k in f):
                            raise Unsupported('side effect in pure expression')
                    for k, arrs in self.st.farr.items():
                        if k in base.farr and any(not x.eq(y) for x, y in zip(arrs, base.farr[k])):
                            raise Unsupported('side effect in pure expression')
                        base.farr[k] = arrs
                    out.append((And_(*conds), v))
                except PathEnd:
                    pass
                finally:
                    l = self.levels.pop()
                work.extend(reversed(l['pending']))
        finally:
            self.st = base
            self.st.pc[:] = saved_pc
            self.nobranch = nb
        for f in facts:
            self.assume(f)
        if not out:
            raise PathEnd()
        return out

    def merged(self, thunk):
        outs = self.explore_pure(thunk)
        v = outs[-1][1]
        for c, x in reversed(outs[:-1]):
            v = self.merge(c, x, v)
        return v

    def merge(self, c, x, y):
        c = as_bool(c)
        if c is True:
            return x
        if c is False:
            return y
        if x is y or (isinstance(x, (int, str, bool, float)) and type(x) is type(y) and x == y):
            return x
        if isinstance(x, ObjV) and x == y:
            return x
        if isinstance(x, tuple) and isinstance(y, tuple) and len(x) == len(y):
            r = [self.merge(c, p, q) for p, q in zip(x, y)]
            return mknt(r, x.names) if isinstance(x, NT) else tuple(r)
        if isinstance(x, EnumV) and isinstance(y, EnumV) and x.cls == y.cls and x.name == y.name:
            return x
        if isinstance(x, LazyArr) or isinstance(y, LazyArr) or isinstance(x, ArrView) or isinstance(y, ArrView):
            x, y = self.as_lazy(x), self.as_lazy(y)
            return LazyArr(self.join(x.e, y.e), [Ite_(c, iz(p), iz(q)) for p, q in zip(x.shape, y.shape)],
                           lambda *ix: self.scalar_merge(c, x.fn(*ix), y.fn(*ix)))
        t = self.join(self.type_of(x), self.type_of(y))
        fx, fy = self.flatten(x, t), self.flatten(y, t)
        terms = [Ite_(c, p, q) for p, q in zip(fx, fy)]
        if is_container(t):
            return Handle(ConstLoc(t, terms)) if self.spec else self.new_cell(t, terms)
        return self.unflatten(t, terms)

    def scalar_merge(self, c, x, y):
        t = self.join(self.type_of(x), self.type_of(y))
        return SV(t, Ite_(c, self.flatten(x, t)[0], self.flatten(y, t)[0]))

    # ------------------------------------------------------------ facts and obligations
    def assume(self, f):
        if f is True:
            return
        if f is False:
            f = z3.BoolVal(False)
        self.st.pc.append(('F', f))

    def fresh(self, name, sort):
        self.cnt += 1
        n = '%s!%d' % (name, self.cnt)
        if self.binders:
            return z3.Function(n, *[x.sort() for x in self.binders], sort)(*self.binders)
        return z3.Const(n, sort)

    def bvar(self, name):
        """a variable to be bound (a constant of its own also inside another binder)"""
        self.cnt += 1
        return z3.Const('%s!%d' % (name, self.cnt), z3.IntSort())

    def oblige(self, label, goal, kind='safety'):
        """emit a verification condition and assume it afterwards"""
        if self.spec:
            return
        goal = as_bool(goal)
        if goal is True:
            if self.emitting():
                self.vcs.append(VC(self.vcname(label), None, None, self.cur_where, kind))
            return
        if self.emitting():
            self.vcs.append(VC(self.vcname(label), [f for _, f in self.st.pc], b(goal), self.cur_where, kind))
        self.assume(goal)

    def vcname(self, label):
        return '%s/%s' % (self.cur.short if self.cur else '?', label)

    class _Binder:
        def __init__(self, it, var, guard):
            self.it, self.var, self.guard = it, var, guard

        def __enter__(self):
            it = self.it
            it.binders.append(self.var)
            self.mark = len(it.st.pc)
            it.st.pc.append(('C', b(self.guard)))
            return self

        def __exit__(self, et, ev, tb):
            it = self.it
            it.binders.pop()
            delta = it.st.pc[self.mark:]
            del it.st.pc[self.mark:]
            if et is None:
                conds = []
                for kind, f in delta:
                    if kind == 'C':
                        conds.append(f)
                    else:
                        it.assume(self.it.forall([self.var], Implies_(And_(*conds), f)))
            return False

    def binder(self, var, guard):
        return Core._Binder(self, var, guard)

    def forall(self, vs, body):
        body = b(body)
        ids = {v.get_id() for v in vs}
        used = [v for v in vs if occurs(v, body)]
        if not used:
            return body
        return z3.ForAll(used, body)

    # ------------------------------------------------------------ storage
    def new_addr(self):
        self.addr += 1
        return self.addr

    def new_cell(self, t, terms):
        a = self.new_addr()
        self.st.cells[a] = SymCell(t, terms)
        return Handle(Root(a))

    def new_py(self, kind, items):
        a = self.new_addr()
        self.st.cells[a] = PyCell(kind, list(items))
        return Handle(Root(a))

    def cell(self, h):
        """PyCell of a handle or None if symbolic"""
        loc = h.loc
        while isinstance(loc, Root):
            c = self.st.cells[loc.addr]
            if isinstance(c, Forward):
                loc = c.loc
                continue
            return c if isinstance(c, PyCell) else None
        return None

    def final_loc(self, loc):
        while isinstance(loc, Root):
            c = self.st.cells[loc.addr]
            if isinstance(c, Forward):
                loc = c.loc
            else:
                break
        return loc

    def loc_t(self, loc):
        loc = self.final_loc(loc)
        if isinstance(loc, Root):
            c = self.st.cells[loc.addr]
            if isinstance(c, PyCell):
                return self.pycell_t(c)
            return c.t
        return loc.t

    def pycell_t(self, c):
        if c.kind == 'list':
            e = None
            for x in c.items:
                e = self.join(e, self.type_of(x)) if e is not None else self.type_of(x)
            return TList(e)
        if c.kind == 'dict':
            k = v = None
            for x, y in c.items:
                k = self.join(k, self.type_of(x)) if k is not None else self.type_of(x)
                v = self.join(v, self.type_of(y)) if v is not None else self.type_of(y)
            return TDict(k, v)
        e = None
        for x in c.items:
            e = self.join(e, self.type_of(x)) if e is not None else self.type_of(x)
        return TSet(e)

    def read(self, loc):
        loc = self.final_loc(loc)
        if isinstance(loc, ConstLoc):
            return list(loc.terms)
        if isinstance(loc, Root):
            c = self.st.cells[loc.addr]
            if isinstance(c, PyCell):
                t = self.pycell_t(c)
                return self.flatten(Handle(loc), t)
            return list(c.terms)
        if isinstance(loc, SubLoc):
            return self.read(loc.base)[loc.lo:loc.hi]
        if isinstance(loc, ElemLoc):
            pt = self.loc_t(loc.parent)
            terms = self.read(loc.parent)
            return [sel(a, loc.key) for a in terms[vals_off(pt):]]
        if isinstance(loc, FieldLoc):
            return [sel(a, loc.ref) for a in self.farr(loc.cls, loc.field)]
        raise Unsupported('read %r' % loc)

    def write(self, loc, terms):
        loc = self.final_loc(loc)
        if isinstance(loc, ConstLoc):
            raise Unsupported('write to an immutable snapshot')
        if isinstance(loc, Root):
            c = self.st.cells[loc.addr]
            self.note_write(('cell', loc.addr), c.t if isinstance(c, SymCell) else None)
            self.st.cells[loc.addr] = SymCell(c.t if isinstance(c, SymCell) else self.pycell_t(c), terms)
        elif isinstance(loc, SubLoc):
            cur = self.read(loc.base)
            cur[loc.lo:loc.hi] = list(terms)
            self.write(loc.base, cur)
        elif isinstance(loc, ElemLoc):
            pt = self.loc_t(loc.parent)
            cur = self.read(loc.parent)
            o = vals_off(pt)
            for i, v in enumerate(terms):
                cur[o + i] = sto(cur[o + i], loc.key, v)
            self.write(loc.parent, cur)
        elif isinstance(loc, FieldLoc):
            arrs = list(self.farr(loc.cls, loc.field))
            for i, v in enumerate(terms):
                arrs[i] = sto(arrs[i], loc.ref, v)
            self.note_write(('farr', loc.cls, loc.field), None)
            self.st.farr[(loc.cls, loc.field)] = tuple(arrs)
        else:
            raise Unsupported('write %r' % loc)

    def farr(self, cls, field):
        k = (cls, field)
        if k not in self.st.farr:
            raise Unsupported('field %s.%s not declared' % (cls, field))
        return self.st.farr[k]

    def init_refs(self):
        for name, rc in self.reg.refs.items():
            a = z3.Const('alloc.%s' % name, z3.IntSort())
            self.st.alloc[name] = a
            self.assume(a >= 0)
        for name, rc in self.reg.refs.items():
            for f, t in rc.fields.items():
                arrs = tuple(z3.Const('%s.%s.%d' % (name, f, i), z3.ArraySort(z3.IntSort(), s))
                             for i, s in enumerate(sorts(t)))
                self.st.farr[(name, f)] = arrs
                r = z3.Const('r', z3.IntSort())
                w = self.wf(t, [sel(x, r) for x in arrs])
                if w is not True:
                    self.assume(z3.ForAll([r], z3.Implies(z3.And(0 <= r, r < self.st.alloc[name]), w)))

    # well-formedness of flat representations
    def wf(self, t, terms):
        if isinstance(t, TRef):
            return z3.And(terms[0] >= 0, terms[0] < self.alloc0(t.cls))
        if isinstance(t, TEnum):
            return z3.Or(*[terms[0] == v for v in self.reg_enum(t.cls).values()])
        if isinstance(t, TScalar) or isinstance(t, TNone):
            return True
        if isinstance(t, TOpt):
            return Implies_(z3.Not(terms[0]), self.wf(t.t, terms[1:]))
        if isinstance(t, TTuple):
            out, i = [], 0
            for x in t.ts:
                k = len(sorts(x))
                out.append(self.wf(x, terms[i:i + k]))
                i += k
            return And_(*out)
        if isinstance(t, TList):
            i = z3.Const('i', z3.IntSort())
            w = self.wf(t.e, [sel(a, i) for a in terms[1:]])
            w = True if w is True else z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < terms[0]), w))
            return And_(terms[0] >= 0, w)
        if isinstance(t, TArr):
            return And_(*[d >= 0 for d in terms[:t.nd]])
        if isinstance(t, (TDict, TSet)):
            n, dom, keys, pos = terms[:4]
            i = z3.Const('i', z3.IntSort())
            k = z3.Const('k', key_sort(t.k))
            out = [n >= 0,
                   z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n),
                                             z3.And(sel(dom, sel(keys, i)), sel(pos, sel(keys, i)) == i)),
                             patterns=[sel(keys, i)] if pat_ok(sel(keys, i)) else []),
                   z3.ForAll([k], z3.Implies(sel(dom, k), z3.And(0 <= sel(pos, k), sel(pos, k) < n,
                                                                sel(keys, sel(pos, k)) == k)),
                             patterns=[sel(dom, k)] if pat_ok(sel(dom, k)) else [])]
            kv = [z3.Const('k', key_sort(t.k))] if len(sorts(t.k)) == 1 else None
            if isinstance(t, TDict):
                w = self.wf(t.v, [sel(a, k) for a in terms[4:]])
                if w is not True:
                    out.append(z3.ForAll([k], z3.Implies(sel(dom, k), w)))
            if kv is not None:
                w = self.wf(t.k, kv)
                if w is not True:
                    out.append(z3.ForAll([k], z3.Implies(sel(dom, k), w)))
            return And_(*out)
        raise Unsupported('wf %r' % t)

    def alloc0(self, cls):
        return self.st.alloc[cls]

    def reg_enum(self, cls):
        return self.enum_members(cls)

    def enum_members(self, cls):
        if cls not in self.reg.enums:
            raise Unsupported('unknown enum %s' % cls)
        v = self.reg.enums[cls]
        if not isinstance(v, dict):
            m, name = v.split(':')
            r = self.prog.find(m, name)
            if not r or r[0] in ('ext', 'mod'):
                raise Unsupported('enum %s not found' % v)
            out = {}
            for st in r[1].body:
                if isinstance(st, ast.Assign) and isinstance(st.targets[0], ast.Name):
                    try:
                        out[st.targets[0].id] = ast.literal_eval(st.value)
                    except Exception:
                        raise Unsupported('enum member')
            self.reg.enums[cls] = v = out
        return v

    # symbolic values
    def symbolic(self, t, name, known_wf=True):
        if isinstance(t, TConst):
            return t.v
        if isinstance(t, TObj):
            fields = {}
            for f, ft in t.fields.items():
                fields[f] = self.symbolic(ft, name + '.' + f) if isinstance(ft, T) else ft
            return self.new_obj(t.cls, fields)
        if isinstance(t, TFun):
            return t
        if isinstance(t, TOpt) and isinstance(t.t, TObj):
            inner = self.symbolic(t.t, name)
            return OptV(self.fresh(name + '.none', z3.BoolSort()), inner, t)
        terms = [self.fresh(name, s) for s in sorts(t)]
        if isinstance(t, TNone):
            return None
        w = self.wf(t, terms)
        self.assume(w)
        if is_container(t):
            return self.new_cell(t, terms)
        return self.unflatten(t, terms)

    def unflatten(self, t, terms):
        if isinstance(t, TScalar):
            return mk(t, terms[0])
        if isinstance(t, TNone):
            return None
        if isinstance(t, TOpt):
            return OptV(terms[0], self.unflatten(t.t, terms[1:]), t)
        if isinstance(t, TTuple):
            out, i = [], 0
            for x in t.ts:
                k = len(sorts(x))
                out.append(self.unflatten(x, terms[i:i + k]))
                i += k
            return mknt(out, t.names) if getattr(t, 'names', None) else tuple(out)
        if is_container(t):
            return Handle(ConstLoc(t, terms)) if self.spec else self.new_cell(t, terms)
        raise Unsupported('unflatten %r' % t)

    def load(self, t, loc):
        if isinstance(t, TScalar):
            return mk(t, self.read(loc)[0])
        if isinstance(t, TNone):
            return None
        if isinstance(t, TOpt):
            n = len(sorts(t))
            return OptV(self.read(loc)[0], self.load(t.t, SubLoc(loc, 1, n, t.t)), t)
        if isinstance(t, TTuple):
            out, i = [], 0
            for x in t.ts:
                k = len(sorts(x))
                out.append(self.load(x, SubLoc(loc, i, i + k, x)))
                i += k
            return mknt(out, t.names) if getattr(t, 'names', None) else tuple(out)
        if is_container(t):
            return Handle(loc)
        raise Unsupported('load %r' % t)

    # types of values
    def type_of(self, v):
        if isinstance(v, MaybeUnbound):
            return self.type_of(v.v)
        if v is None:
            return NoneT
        if isinstance(v, bool):
            return Bool
        if isinstance(v, int):
            return Int
        if isinstance(v, float):
            return Real
        if isinstance(v, str):
            return Str
        if isinstance(v, SV):
            return v.t
        if isinstance(v, OptV):
            return TOpt(self.type_of(v.v)) if v.t is None else v.t
        if isinstance(v, EnumV):
            return TEnum(v.cls)
        if isinstance(v, tuple):
            t = TTuple(*[self.type_of(x) for x in v])
            if isinstance(v, NT):
                t.names = v.names
            return t
        if isinstance(v, Handle):
            return self.loc_t(v.loc)
        if isinstance(v, LazyArr):
            return TArr(v.e, len(v.shape))
        if isinstance(v, ArrView):
            bt = self.loc_t(v.base)
            return TArr(bt.e, sum(1 for s in v.sels if s[0] == 's'))
        if isinstance(v, ObjV):
            c = self.st.objs[v.addr][0]
            if self.is_nodelike(c):
                return NodeT
            return TConst(v)
        return TConst(v)

    def is_nodelike(self, c):
        return isinstance(c, str) and c.startswith(('ast.', 'ir.'))

    def join(self, a, c):
        if a is None:
            return c
        if c is None:
            return a
        if a == c:
            return a
        if isinstance(a, TConst) and isinstance(c, TConst) and a.v is c.v:
            return a
        for x, y in ((a, c), (c, a)):
            if isinstance(x, TInt) and isinstance(y, TReal):
                return y
            if isinstance(x, TBool) and isinstance(y, (TInt, TReal)):
                return y
            if isinstance(x, TNone):
                return y if isinstance(y, TOpt) else (Any if isinstance(y, TAny) else TOpt(y))
            if isinstance(x, TOpt) and not isinstance(y, (TOpt, TNone)):
                return TOpt(self.join(x.t, y))
            if isinstance(x, TAny) and isinstance(y, TScalar):
                return x
            if isinstance(x, TEnum) and isinstance(y, TInt):
                return y
        if isinstance(a, TOpt) and isinstance(c, TOpt):
            return TOpt(self.join(a.t, c.t))
        if isinstance(a, TTuple) and isinstance(c, TTuple) and len(a.ts) == len(c.ts):
            t = TTuple(*[self.join(x, y) for x, y in zip(a.ts, c.ts)])
            t.names = getattr(a, 'names', None)
            return t
        if isinstance(a, TList) and isinstance(c, TList):
            return TList(self.join(a.e, c.e))
        if isinstance(a, TSet) and isinstance(c, TSet):
            return TSet(self.join(a.k, c.k))
        if isinstance(a, TDict) and isinstance(c, TDict):
            return TDict(self.join(a.k, c.k), self.join(a.v, c.v))
        if isinstance(a, TArr) and isinstance(c, TArr) and a.nd == c.nd:
            return TArr(self.join(a.e, c.e), a.nd)
        if isinstance(a, TScalar) and isinstance(c, TScalar):
            return Any
        raise Unsupported('no common type for %r and %r' % (a, c))

    # flattening
    def flatten(self, v, t):
        if isinstance(v, MaybeUnbound):
            v = v.v
        if isinstance(t, TOpt):
            if v is None if t.lit is None else isinstance(v, str) and v == t.lit:
                return [z3.BoolVal(True)] + [self.default(s) for s in sorts(t.t)]
            if isinstance(v, OptV):
                return [b(v.none)] + self.flatten(v.v, t.t)
            return [z3.BoolVal(False)] + self.flatten(v, t.t)
        if isinstance(v, OptV):
            if isinstance(t, TAny):
                return [z3.If(b(v.none), AnySort.ANone, self.flatten(v.v, t)[0])]
            self.need_some(v)
            return self.flatten(v.v, t)
        if isinstance(t, TNone):
            if v is not None:
                raise Unsupported('expected None')
            return []
        if isinstance(t, TTuple):
            if isinstance(v, Handle) and isinstance(self.loc_t(v.loc), TList):
                c = self.cell(v)
                if c is None or len(c.items) != len(t.ts):
                    raise Unsupported('list as tuple')
                v = tuple(c.items)
            if not isinstance(v, tuple) or len(v) != len(t.ts):
                raise Unsupported('expected tuple %r, got %r' % (t, v))
            return [x for p, q in zip(v, t.ts) for x in self.flatten(p, q)]
        if isinstance(t, TScalar):
            return [self.scalar(v, t)]
        if is_container(t):
            return self.container_terms(v, t)
        raise Unsupported('flatten %r as %r' % (v, t))

    def default(self, s):
        if s == z3.IntSort():
            return z3.IntVal(0)
        if s == z3.RealSort():
            return z3.RealVal(0)
        if s == z3.BoolSort():
            return z3.BoolVal(False)
        if isinstance(s, z3.ArraySortRef):
            return z3.K(s.domain(), self.default(s.range()))
        return z3.Const('default:%s' % s.name(), s)

    def scalar(self, v, t):
        if isinstance(v, MaybeUnbound):
            v = v.v
        if isinstance(v, OptV) and not isinstance(t, TAny):
            self.need_some(v)
            v = v.v
        if isinstance(t, TInt):
            if isinstance(v, bool):
                return z3.IntVal(int(v))
            if isinstance(v, int):
                return z3.IntVal(v)
            if isinstance(v, EnumV) and isinstance(v.value, int):
                return z3.IntVal(v.value)
            if isinstance(v, float) and v == int(v):
                return z3.IntVal(int(v))
            if isinstance(v, SV):
                if isinstance(v.t, (TInt, TEnum)):
                    return v.z
                if isinstance(v.t, TBool):
                    return z3.If(v.z, z3.IntVal(1), z3.IntVal(0))
                if isinstance(v.t, TAny):
                    return AnySort.a_int(v.z)
        elif isinstance(t, TReal):
            if isinstance(v, (bool, int, float)):
                return real_val(v)
            if isinstance(v, SV):
                if isinstance(v.t, TReal):
                    return v.z
                if isinstance(v.t, TInt):
                    return z3.ToReal(v.z)
                if isinstance(v.t, TBool):
                    return z3.If(v.z, z3.RealVal(1), z3.RealVal(0))
                if isinstance(v.t, TAny):
                    return AnySort.a_real(v.z)
        elif isinstance(t, TBool):
            if isinstance(v, bool):
                return z3.BoolVal(v)
            if isinstance(v, int):
                return z3.BoolVal(bool(v))
            if isinstance(v, SV):
                if isinstance(v.t, TBool):
                    return v.z
                if isinstance(v.t, TInt):
                    return v.z != 0
                if isinstance(v.t, TAny):
                    return AnySort.a_bool(v.z)
        elif isinstance(t, TStr):
            if isinstance(v, str):
                return str_lit(v)
            if isinstance(v, SV):
                if isinstance(v.t, TStr):
                    return v.z
                if isinstance(v.t, TAny):
                    return AnySort.a_str(v.z)
        elif isinstance(t, TEnum):
            if isinstance(v, EnumV):
                return z3.IntVal(self.enum_code(v.cls, v.name))
            if isinstance(v, SV) and isinstance(v.t, (TEnum, TInt)):
                return v.z
            if isinstance(v, int):
                return z3.IntVal(v)
        elif isinstance(t, TRef):
            if isinstance(v, SV) and isinstance(v.t, TRef):
                return v.z
            if isinstance(v, SV) and isinstance(v.t, TAny):
                return AnySort.a_ref(v.z)
        elif isinstance(t, TNode):
            if isinstance(v, SV) and isinstance(v.t, TNode):
                return v.z
            if isinstance(v, SV) and isinstance(v.t, TAny):
                return AnySort.a_node(v.z)
            return self.encode_node(v)
        elif isinstance(t, TAny):
            if v is None:
                return AnySort.ANone
            if isinstance(v, OptV):
                return z3.If(b(v.none), AnySort.ANone, self.scalar(v.v, t))
            if isinstance(v, bool):
                return AnySort.ABool(z3.BoolVal(v))
            if isinstance(v, int):
                return AnySort.AInt(z3.IntVal(v))
            if isinstance(v, float):
                return AnySort.AReal(real_val(v))
            if isinstance(v, str):
                return AnySort.AStr(str_lit(v))
            if isinstance(v, EnumV):
                return AnySort.ARef(z3.IntVal(self.reg.clsid('enum:' + v.cls)), self.scalar(v, TEnum(v.cls)))
            if isinstance(v, SV):
                if isinstance(v.t, TAny):
                    return v.z
                if isinstance(v.t, TInt):
                    return AnySort.AInt(v.z)
                if isinstance(v.t, TReal):
                    return AnySort.AReal(v.z)
                if isinstance(v.t, TBool):
                    return AnySort.ABool(v.z)
                if isinstance(v.t, TStr):
                    return AnySort.AStr(v.z)
                if isinstance(v.t, TNode):
                    return AnySort.ANode(v.z)
                if isinstance(v.t, TRef):
                    return AnySort.ARef(z3.IntVal(self.reg.clsid(v.t.cls)), v.z)
                if isinstance(v.t, TEnum):
                    return AnySort.ARef(z3.IntVal(self.reg.clsid('enum:' + v.t.cls)), v.z)
        raise Unsupported('cannot use %r as %r' % (v, t))

    def enum_code(self, cls, name):
        v = self.enum_members(cls)[name]
        if isinstance(v, int):
            return v
        return sorted(self.enum_members(cls)).index(name)

    # syntax-tree-like values encoded as opaque terms with observers
    def encode_node(self, v):
        if isinstance(v, ObjV):
            cls, fields = self.st.objs[v.addr]
            if not self.is_nodelike(cls):
                raise Unsupported('object of %s as opaque value' % (cls,))
            if '#enc' in fields:
                return fields['#enc']
            nd = self.fresh('node', NodeSort)
            self.assume(z3.Function('kind', NodeSort, z3.IntSort())(nd) == self.reg.clsid(cls))
            for f, x in fields.items():
                if f.startswith('#'):
                    continue
                self.observe(nd, cls.split('.')[-1] + '_' + f, x)
            fields['#enc'] = nd
            if cls in self.reg.node_axioms:
                for ax in self.reg.node_axioms[cls]:
                    ax(self, nd, fields)
            return nd
        if v is None:
            return z3.Const('node:None', NodeSort)
        if isinstance(v, (int, float, str, bool)):
            t = self.type_of(v)
            return self.box(t, self.scalar(v, t))
        if isinstance(v, SV) and not isinstance(v.t, TNode):
            return self.box(v.t, v.z)
        raise Unsupported('cannot encode %r as opaque value' % (v,))

    def box(self, t, z):
        return z3.Function('box_%s' % z.sort().name(), z.sort(), NodeSort)(z)

    def observe(self, nd, name, x):
        if isinstance(x, Handle) or isinstance(x, tuple):
            seq = self.seq_of(x)
            n = seq.n
            self.assume(z3.Function(name + '_n', NodeSort, z3.IntSort())(nd) == iz(n))
            f = z3.Function(name + '_at', NodeSort, z3.IntSort(), NodeSort)
            if isinstance(n, int):
                for i in range(n):
                    self.assume(f(nd, z3.IntVal(i)) == self.scalar(seq.get(i), NodeT))
            else:
                i = self.fresh('oi', z3.IntSort())
                self.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n),
                                                      f(nd, i) == self.scalar(seq.get(i), NodeT))))
            return
        if isinstance(x, (ClassV, FuncV, Ext, Builtin)):
            return
        if isinstance(x, OptV):
            return
        t = self.type_of(x)
        if isinstance(x, ObjV) or isinstance(t, TNode) or x is None:
            self.assume(z3.Function(name, NodeSort, NodeSort)(nd) == self.scalar(x, NodeT))
        elif isinstance(t, TScalar):
            s = self.scalar(x, t)
            self.assume(z3.Function(name + ':' + s.sort().name(), NodeSort, s.sort())(nd) == s)
        # other fields are not observed

    def container_terms(self, v, t):
        if isinstance(t, TArr):
            if isinstance(v, Handle):
                vt = self.loc_t(v.loc)
                if isinstance(vt, TArr):
                    if vt == t:
                        return self.read(v.loc)
                else:
                    v = self.lazy_from_list(v)
            lz = self.as_lazy(v)
            if len(lz.shape) != t.nd:
                raise Unsupported('array rank')
            return [iz(d) for d in lz.shape] + [self.lam_nd(lz, t.e)]
        if isinstance(v, Handle):
            c = self.cell(v)
            if c is None:
                vt = self.loc_t(v.loc)
                if vt == t:
                    return self.read(v.loc)
                if isinstance(vt, TList) and isinstance(t, TList):
                    terms = self.read(v.loc)
                    i = z3.Const('ci', z3.IntSort())
                    el = self.unflatten(vt.e, [sel(a, i) for a in terms[1:]])
                    return [terms[0]] + [z3.Lambda([i], x) for x in self.flatten(el, t.e)]
                if isinstance(vt, TDict) and isinstance(t, TDict) and vt.k == t.k:
                    terms = self.read(v.loc)
                    i = z3.Const('ck', key_sort(t.k))
                    el = self.unflatten(vt.v, [sel(a, i) for a in terms[4:]])
                    return terms[:4] + [z3.Lambda([i], x) for x in self.flatten(el, t.v)]
                raise Unsupported('convert %r to %r' % (vt, t))
            if c.kind == 'list' and isinstance(t, TList):
                if t.e is None:
                    raise Unsupported('list of unknown element type')
                arrs = [z3.K(z3.IntSort(), self.default(s)) for s in sorts(t.e)]
                for i, x in enumerate(c.items):
                    for j, z in enumerate(self.flatten(x, t.e)):
                        arrs[j] = sto(arrs[j], z3.IntVal(i), z)
                return [z3.IntVal(len(c.items))] + arrs
            if c.kind == 'dict' and isinstance(t, TDict) or c.kind == 'set' and isinstance(t, TSet):
                if t.k is None or (isinstance(t, TDict) and t.v is None):
                    raise Unsupported('dict of unknown type')
                terms = self.empty_terms(t)
                for it in c.items:
                    terms = self.dict_put(t, terms, it if c.kind == 'set' else it[0], None if c.kind == 'set' else it[1])
                return terms
        if isinstance(t, TList) and isinstance(v, (tuple, Seq, LazyArr, ArrView)):
            return self.seq_terms(self.seq_of(v), t)
        raise Unsupported('container %r as %r' % (v, t))

    def empty_terms(self, t):
        if isinstance(t, TList):
            return [z3.IntVal(0)] + [z3.K(z3.IntSort(), self.default(s)) for s in sorts(t.e)]
        ks = key_sort(t.k)
        terms = [z3.IntVal(0), z3.K(ks, z3.BoolVal(False)), z3.K(z3.IntSort(), self.default(ks)),
                 z3.K(ks, z3.IntVal(0))]
        if isinstance(t, TDict):
            terms += [z3.K(ks, self.default(s)) for s in sorts(t.v)]
        return terms

    def key_term(self, v, t):
        terms = self.flatten(v, t)
        if len(terms) == 1:
            return terms[0]
        return key_sort(t).constructor(0)(*terms)

    def key_val(self, z, t):
        ss = sorts(t)
        if len(ss) == 1:
            return self.unflatten(t, [z])
        ks = key_sort(t)
        return self.unflatten(t, [ks.accessor(0, i)(z) for i in range(len(ss))])

    def dict_put(self, t, terms, key, val):
        n, dom, keys, pos = terms[:4]
        k = self.key_term(key, t.k)
        had = as_bool(sel(dom, k))
        out = [Ite_(had, n, n + 1), sto(dom, k, z3.BoolVal(True)), Ite_(had, keys, sto(keys, n, k)),
               Ite_(had, pos, sto(pos, k, n))]
        if isinstance(t, TDict):
            for a, z in zip(terms[4:], self.flatten(val, t.v)):
                out.append(sto(a, k, z))
        return out

    def lam_nd(self, lz, e):
        ix = [z3.Const('x%d_%d' % (self.cnt, i), z3.IntSort()) for i in range(len(lz.shape))]
        self.cnt += 1
        body = self.scalar(lz.fn(*ix), e)
        for x in reversed(ix):
            body = z3.Lambda([x], body)
        return body

    def seq_terms(self, seq, t):
        if isinstance(seq.n, int):
            arrs = [z3.K(z3.IntSort(), self.default(s)) for s in sorts(t.e)]
            for i in range(seq.n):
                for j, z in enumerate(self.flatten(seq.get(i), t.e)):
                    arrs[j] = sto(arrs[j], z3.IntVal(i), z)
            return [z3.IntVal(seq.n)] + arrs
        i = self.fresh('si', z3.IntSort())
        with self.binder(i, z3.And(0 <= i, i < seq.n)):
            zs = self.flatten(seq.get(i), t.e)
        return [seq.n] + [z3.Lambda([i], z) for z in zs]

    def new_obj(self, cls, fields=None):
        a = self.new_addr()
        self.st.objs[a] = (cls, dict(fields or {}))
        return ObjV(a)

    def need_some(self, v):
        if isinstance(v, OptV) and not self.spec:
            self.oblige('value-is-not-None', Not_(v.none))

    def promote(self, h, t):
        """turn a python-side container into a symbolic one"""
        loc = self.final_loc(h.loc)
        c = self.st.cells[loc.addr]
        terms = self.flatten(Handle(loc), t)
        # nested handles move into the container
        if c.kind == 'list':
            for i, x in enumerate(c.items):
                self.moved(x, ElemLoc(loc, z3.IntVal(i), t.e), t.e)
        elif c.kind == 'dict':
            for k, x in c.items:
                self.moved(x, ElemLoc(loc, self.key_term(k, t.k), t.v), t.v)
        self.st.cells[loc.addr] = SymCell(t, terms)

    def moved(self, v, loc, t):
        """value v (already copied) now lives at loc: redirect the old handle"""
        if isinstance(v, Handle):
            if not is_container(t):
                return
            l = self.final_loc(v.loc)
            if isinstance(l, Root):
                self.st.cells[l.addr] = Forward(loc)
        elif isinstance(v, tuple) and isinstance(t, TTuple):
            i = 0
            for x, xt in zip(v, t.ts):
                k = len(sorts(xt))
                self.moved(x, SubLoc(loc, i, i + k, xt), xt)
                i += k

    # ------------------------------------------------------------ write tracking
    def note_write(self, key, t):
        for w in self.watchers:
            if key[0] == 'name':
                if key[1] not in w['fids']:
                    continue
            elif key[0] in ('cell', 'obj'):
                if key[1] > w['mark']:
                    continue
            ms = w['modset']
            if key not in ms:
                ms[key] = t
                raise Restart()
            if ms[key] is POISON:
                continue
            if key[0] == 'name' and t is not None and ms[key] is not None:
                try:
                    self.join(ms[key], t)
                except Unsupported:         # a name used for values of unrelated types: unreadable until assigned again
                    ms[key] = POISON
                    raise Restart()
            if t is not None and ms[key] is not None:
                j = self.join(ms[key], t)
                if j != ms[key]:
                    ms[key] = j
                    raise Restart()
            elif t is not None:
                ms[key] = t
                raise Restart()


def same_cell(x, y):
    if type(x) is not type(y):
        return False
    if isinstance(x, SymCell):
        return len(x.terms) == len(y.terms) and all(p.eq(q) for p, q in zip(x.terms, y.terms))
    if isinstance(x, PyCell):
        return len(x.items) == len(y.items) and all(p is q or same_item(p, q) for p, q in zip(x.items, y.items))
    return True


def same_item(p, q):
    if isinstance(p, tuple) and isinstance(q, tuple) and len(p) == len(q):
        return all(x is y or same_item(x, y) for x, y in zip(p, q))
    return isinstance(p, (int, str, bool, float, type(None))) and type(p) is type(q) and p == q


def occurs(v, t):
    seen, todo = set(), [t]
    vid = v.get_id()
    while todo:
        x = todo.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if i == vid:
            return True
        if z3.is_quantifier(x):
            todo.append(x.body())
        else:
            todo.extend(x.children())
    return False


def pat_ok(t):
    return z3.is_app(t) and t.decl().kind() == z3.Z3_OP_SELECT and not z3.is_quantifier(t.arg(0))


def vals_off(t):
    if isinstance(t, TList):
        return 1
    if isinstance(t, TDict):
        return 4
    raise Unsupported('element of %r' % t)


def iz(x):
    return z3.IntVal(x) if isinstance(x, int) else x


def mk(t, z):
    if isinstance(t, TInt) and z3.is_int_value(z):
        return z.as_long()
    if isinstance(t, TBool):
        if z3.is_true(z):
            return True
        if z3.is_false(z):
            return False
    return SV(t, z)

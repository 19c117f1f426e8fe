"""Built-in functions, containers, strings and numpy on symbolic values (the trusted library model)."""
import ast

from .evalx import *

DT = {'int64': Int, 'int32': Int, 'int': Int, 'int_': Int, 'float64': Real, 'float': Real, 'float32': Real,
      'bool': Bool, 'bool_': Bool, 'boolean': Bool}


def concrete_key(k):
    if isinstance(k, tuple):
        return all(concrete_key(x) for x in k)
    return k is None or isinstance(k, (int, str, float, EnumV, ObjV, ClassV, FuncV))


def clen(n):
    """length as python int when constant"""
    if isinstance(n, int):
        return n
    s = z3.simplify(n)
    return s.as_long() if z3.is_int_value(s) else n


def isnum(x):
    return isinstance(x, int)


def has_qvar(e):
    seen, todo = set(), [e]
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and '?' in x.decl().name():
            return True
        if z3.is_quantifier(x):
            todo.append(x.body())
        todo += x.children()
    return False


class Lib(Eval):
    # ------------------------------------------------------------ sequences
    def seq_of(self, v):
        v = self.unopt(v)
        if isinstance(v, MaybeUnbound):
            v = v.v
        if isinstance(v, Seq):
            return Seq(clen(v.n), v.get, v.src)
        if isinstance(v, tuple):
            return self.items_seq(v)
        if isinstance(v, str):
            return self.items_seq(tuple(v))
        if isinstance(v, Handle):
            c = self.cell(v)
            if c is not None:
                items = [k for k, _ in c.items] if c.kind == 'dict' else list(c.items)
                return self.items_seq(tuple(items))
            t = self.loc_t(v.loc)
            loc = v.loc
            if isinstance(t, TList):
                n = clen(self.read(loc)[0])
                return Seq(n, lambda i: self.load(t.e, ElemLoc(loc, iz(i), t.e)), ('live', loc))
            if isinstance(t, TDict):
                terms = self.read(loc)
                return Seq(clen(terms[0]), lambda i: self.key_val(sel(terms[2], iz(i)), t.k), ('keys', loc))
            if isinstance(t, TSet):
                terms = self.read(loc)
                if self.spec:
                    return Seq(clen(terms[0]), lambda i: self.key_val(sel(terms[2], iz(i)), t.k), ('keys', loc))
                ks = key_sort(t.k)
                keys = self.fresh('order', z3.ArraySort(z3.IntSort(), ks))
                pos = self.fresh('opos', z3.ArraySort(ks, z3.IntSort()))
                self.assume(self.wf(t, [terms[0], terms[1], keys, pos]))
                return Seq(clen(terms[0]), lambda i: self.key_val(sel(keys, iz(i)), t.k), ('keys', loc))
        if self.is_arr(v):
            if isinstance(v, LazyArr):
                lz = v
                n = clen(lz.shape[0])
                return Seq(n, lambda i: self.lazy_index(lz, [('i', iz(i))]))
            n = clen(self.arr_shape(v)[0])
            return Seq(n, lambda i: self.arr_get(v, [('i', iz(i))]))
        if isinstance(v, ObjV) or isinstance(v, SV) and isinstance(v.t, TRef):
            m = self.getattr_or_none(v, '__iter__')
            if m is not None:
                return self.seq_of(self.call(m, [], {}))
        raise Unsupported('iteration over %r' % (v,))

    def items_seq(self, items):
        return Seq(len(items), lambda i: items[i] if isinstance(i, int) else (
            items[clen(i)] if isinstance(clen(i), int) and 0 <= clen(i) < len(items) else self.pick(list(items), i)))

    def seq_type(self, s):
        if isinstance(s.n, int):
            t = None
            for i in range(s.n):
                t = self.join(t, self.type_of(s.get(i)))
            return t
        i = z3.Const('ty%d' % self.cnt, z3.IntSort())
        self.cnt += 1
        sp, self.spec = self.spec, self.spec + 1
        mark = len(self.st.pc)
        try:
            return self.type_of(s.get(i))
        finally:
            self.spec = sp
            del self.st.pc[mark:]

    def list_from_seq(self, s):
        s = self.seq_of(s)
        if isinstance(s.n, int):
            return self.new_py('list', [s.get(i) for i in range(s.n)])
        e = self.seq_type(s)
        if isinstance(e, TConst):
            raise Unsupported('list of objects of symbolic length')
        t = TList(e)
        terms = self.seq_terms(s, t)
        return Handle(ConstLoc(t, terms)) if self.spec else self.new_cell(t, terms)

    def set_from_seq(self, s):
        src = s
        s = self.seq_of(s)
        if isinstance(s.n, int):
            h = self.new_py('set', [])
            for i in range(s.n):
                self.set_add(h, s.get(i))
            return h
        e = self.seq_type(s)
        t = TSet(e)
        # domain = image of the sequence
        n = self.fresh('sn', z3.IntSort())
        ks = key_sort(e)
        dom = self.fresh('sdom', z3.ArraySort(ks, z3.BoolSort()))
        keys = self.fresh('skeys', z3.ArraySort(z3.IntSort(), ks))
        pos = self.fresh('spos', z3.ArraySort(ks, z3.IntSort()))
        wit = self.fresh('swit', z3.ArraySort(ks, z3.IntSort()))
        self.assume(self.wf(t, [n, dom, keys, pos]))
        self.assume(n <= iz(s.n))
        i = self.fresh('si', z3.IntSort())
        sp, self.spec = self.spec, self.spec + 1
        try:
            kt = self.key_term(s.get(i), e)
            body = z3.Implies(z3.And(0 <= i, i < s.n), sel(dom, kt))
            try:
                self.assume(z3.ForAll([i], body, patterns=[kt]))
            except z3.Z3Exception:
                self.assume(z3.ForAll([i], body))
            k = z3.Const('wk%d' % self.cnt, ks)
            self.cnt += 1
            kw = self.key_term(s.get(wit[k]), e)
            self.assume(z3.ForAll([k], z3.Implies(sel(dom, k), z3.And(0 <= wit[k], wit[k] < s.n, kw == k)),
                                  patterns=[sel(dom, k)]))
        finally:
            self.spec = sp
        terms = [n, dom, keys, pos]
        return Handle(ConstLoc(t, terms)) if self.spec else self.new_cell(t, terms)

    def dict_from_seq(self, s):
        s = self.seq_of(s)
        if isinstance(s.n, int):
            h = self.new_py('dict', [])
            for i in range(s.n):
                k, v = self.pair(s.get(i))
                self.setitem(h, k, v)
            return h
        e = self.seq_type(s)
        if not isinstance(e, TTuple) or len(e.ts) != 2:
            raise Unsupported('dict from sequence')
        kt, vt = e.ts
        t = TDict(kt, vt)
        ks = key_sort(kt)
        n = self.fresh('dn', z3.IntSort())
        dom = self.fresh('ddom', z3.ArraySort(ks, z3.BoolSort()))
        keys = self.fresh('dkeys', z3.ArraySort(z3.IntSort(), ks))
        pos = self.fresh('dpos', z3.ArraySort(ks, z3.IntSort()))
        last = self.fresh('dlast', z3.ArraySort(ks, z3.IntSort()))
        vals = [self.fresh('dval', z3.ArraySort(ks, x)) for x in sorts(vt)]
        self.assume(self.wf(t, [n, dom, keys, pos] + vals))
        self.assume(n <= iz(s.n))
        i = self.fresh('di', z3.IntSort())
        sp, self.spec = self.spec, self.spec + 1
        try:
            k = self.key_term(s.get(i)[0], kt)
            self.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < s.n), z3.And(sel(dom, k), last[k] >= i))))
            x = z3.Const('dk%d' % self.cnt, ks)
            self.cnt += 1
            p = s.get(last[x])
            eqs = [sel(a, x) == y for a, y in zip(vals, self.flatten(p[1], vt))]
            self.assume(z3.ForAll([x], z3.Implies(sel(dom, x), z3.And(
                0 <= last[x], last[x] < s.n, self.key_term(p[0], kt) == x, *eqs)), patterns=[sel(dom, x)]))
        finally:
            self.spec = sp
        terms = [n, dom, keys, pos] + vals
        return Handle(ConstLoc(t, terms)) if self.spec else self.new_cell(t, terms)

    def pair(self, v):
        if isinstance(v, tuple):
            return v[0], v[1]
        s = self.seq_of(v)
        return s.get(0), s.get(1)

    # ------------------------------------------------------------ python containers
    def pynote(self, h):
        loc = self.final_loc(h.loc)
        t = None
        try:
            t = self.loc_t(loc)
        except Unsupported:
            t = None
        self.note_write(('cell', loc.addr), t)

    def list_append(self, h, v):
        c = self.cell(h)
        v = self.settle(v)
        if c is not None:
            c.items.append(v)
            try:
                self.pynote(h)
            except Restart:
                raise
            return
        t = self.loc_t(h.loc)
        terms = self.read(h.loc)
        n = terms[0]
        out = [z3.simplify(n + 1)]
        for a, z in zip(terms[1:], self.flatten(v, t.e)):
            out.append(sto(a, n, z))
        self.write(h.loc, out)
        self.moved(v, ElemLoc(h.loc, n, t.e), t.e)

    def list_extend(self, h, v):
        s = self.seq_of(v)
        if isinstance(s.n, int):
            for x in [s.get(i) for i in range(s.n)]:
                self.list_append(h, x)
            return
        t = self.loc_t(h.loc)
        e = self.seq_type(s)
        if self.cell(h) is not None:
            self.promote(h, TList(self.join(t.e, e)))
            t = self.loc_t(h.loc)
        self.write(h.loc, self.concat_terms(self.read(h.loc), self.seq_terms(s, t), t))

    def concat_terms(self, a, c, t):
        n, m = a[0], c[0]
        i = z3.Const('cc%d' % self.cnt, z3.IntSort())
        self.cnt += 1
        return [z3.simplify(n + m)] + [z3.Lambda([i], z3.If(i < n, sel(x, i), sel(y, i - n)))
                                       for x, y in zip(a[1:], c[1:])]

    def list_concat(self, x, y):
        cx, cy = self.cell(x), self.cell(y)
        if cx is not None and cy is not None:
            return self.new_py('list', cx.items + cy.items)
        tx, ty = self.loc_t(x.loc), self.loc_t(y.loc)
        t = self.join(tx, ty)
        terms = self.concat_terms(self.flatten(x, t), self.flatten(y, t), t)
        return Handle(ConstLoc(t, terms)) if self.spec else self.new_cell(t, terms)

    def list_repeat(self, h, n):
        c = self.cell(h)
        if c is not None and isinstance(n, int):
            return self.new_py('list', c.items * n)
        if c is not None and len(c.items) == 1:
            v = c.items[0]
            e = self.type_of(v)
            nz = self.scalar(n, Int)
            i = z3.Const('rp%d' % self.cnt, z3.IntSort())
            self.cnt += 1
            t = TList(e)
            terms = [z3.If(nz > 0, nz, z3.IntVal(0))] + [z3.K(z3.IntSort(), x) for x in self.flatten(v, e)]
            return Handle(ConstLoc(t, terms)) if self.spec else self.new_cell(t, terms)
        raise Unsupported('list repetition')

    def set_add(self, h, v):
        c = self.cell(h)
        if c is not None:
            if concrete_key(v) and all(concrete_key(x) for x in c.items):
                if not any(self.eq(v, x) is True for x in c.items):
                    c.items.append(v)
                    self.pynote(h)
                return
            self.promote(h, TSet(self.join(self.loc_t(h.loc).k, self.type_of(v))))
        t = self.loc_t(h.loc)
        self.write(h.loc, self.dict_put(t, self.read(h.loc), v, None))

    def set_op(self, op, x, y):
        cx, cy = self.cell(x), self.cell(y) if isinstance(y, Handle) else None
        if cx is not None and cy is not None:
            inn = lambda v, c: any(self.eq(v, w) is True for w in c.items)
            if isinstance(op, ast.BitAnd):
                return self.new_py('set', [v for v in cx.items if inn(v, cy)])
            if isinstance(op, ast.BitOr):
                return self.new_py('set', cx.items + [v for v in cy.items if not inn(v, cx)])
            return self.new_py('set', [v for v in cx.items if not inn(v, cy)])
        t = self.join(self.loc_t(x.loc), self.loc_t(y.loc))
        if not isinstance(t, TSet):
            raise Unsupported('set operation')
        ax, ay = self.flatten(x, t), self.flatten(y, t)
        ks = key_sort(t.k)
        out = [self.fresh('un', z3.IntSort()), None, self.fresh('uk', z3.ArraySort(z3.IntSort(), ks)),
               self.fresh('up', z3.ArraySort(ks, z3.IntSort()))]
        k = z3.Const('uo%d' % self.cnt, ks)
        self.cnt += 1
        p, q = sel(ax[1], k), sel(ay[1], k)
        body = z3.And(p, q) if isinstance(op, ast.BitAnd) else z3.Or(p, q) if isinstance(op, ast.BitOr) else \
            z3.And(p, z3.Not(q))
        out[1] = self.fresh('udom', z3.ArraySort(ks, z3.BoolSort()))
        self.assume(z3.ForAll([k], sel(out[1], k) == body, patterns=[sel(out[1], k)]))
        self.assume(self.wf(t, out))
        return Handle(ConstLoc(t, out)) if self.spec else self.new_cell(t, out)

    # ------------------------------------------------------------ indexing
    def index_term(self, i, n):
        """normalise a possibly negative index; n length (int or term)"""
        if isinstance(i, int):
            if i >= 0:
                return iz(i)
            return z3.simplify(iz(n) + i)
        z = self.scalar(i, Int)
        if self.spec or not self.feasible(z < 0):
            return z
        return z3.If(z < 0, z + iz(n), z)

    def check_index(self, z, n, exc='IndexError', label='index-in-range'):
        self.py_check(And_(as_bool(z >= 0), as_bool(z < iz(n))), exc, label)

    def slice_bounds(self, s, n):
        nz = iz(n)

        def norm(x, dflt):
            if x is None:
                return dflt
            x = self.unopt(x)
            if x is None:
                return dflt
            if isinstance(x, int):
                if x >= 0:
                    z = iz(x)
                    if isnum(n):
                        return iz(min(x, n))
                    if not self.feasible(z > nz):
                        return z
                    return z3.If(z <= nz, z, nz)
                z = z3.simplify(nz + x)
                if isnum(n):
                    return iz(max(n + x, 0))
                if not self.feasible(z < 0):
                    return z
                return z3.If(z >= 0, z, z3.IntVal(0))
            z = self.scalar(x, Int)
            if not self.feasible(z < 0):
                if not self.feasible(z > nz):
                    return z
                return z3.If(z <= nz, z, nz)
            z2 = z3.If(z < 0, z + nz, z)
            return z3.If(z2 < 0, z3.IntVal(0), z3.If(z2 <= nz, z2, nz))
        lo, hi = norm(s.lo, z3.IntVal(0)), norm(s.hi, nz)
        m = z3.simplify(hi - lo)
        if z3.is_int_value(m):
            m = z3.IntVal(max(0, m.as_long()))
        elif self.feasible(m < 0):
            m = z3.If(m > 0, m, z3.IntVal(0))
        return lo, m

    def getitem(self, v, ix):
        v = self.unopt(v)
        ix = self.unopt(ix) if not isinstance(ix, (tuple, SliceV)) else ix
        if self.is_arr(v):
            return self.arr_get(v, self.arr_index(v, ix))
        if isinstance(v, tuple):
            if isinstance(ix, int):
                if not -len(v) <= ix < len(v):
                    self.py_error('IndexError', 'tuple-index')
                return v[ix]
            if isinstance(ix, SliceV):
                if all(x is None or isinstance(x, int) for x in (ix.lo, ix.hi, ix.step)):
                    return v[ix.lo:ix.hi:ix.step]
                raise Unsupported('tuple slice')
            z = self.index_term(ix, len(v))
            self.check_index(z, len(v))
            return self.pick(list(v), z)
        if isinstance(v, str) and isinstance(ix, int):
            return v[ix]
        if isinstance(v, str) and isinstance(ix, SliceV) and all(x is None or isinstance(x, int) for x in
                                                                (ix.lo, ix.hi, ix.step)):
            return v[ix.lo:ix.hi:ix.step]
        if isinstance(v, SV) and isinstance(v.t, TStr):
            I = z3.IntSort()
            if not isinstance(ix, SliceV):
                return SV(Str, z3.Function('str_at', StrSort, I, StrSort)(v.z, self.scalar(ix, Int)))
            if ix.step is None:
                if ix.hi is None and (ix.lo is None or isinstance(ix.lo, int) and ix.lo == 0):
                    return v
                lo = z3.IntVal(0) if ix.lo is None else self.scalar(ix.lo, Int)
                hi = z3.Function('str_len', StrSort, I)(v.z) if ix.hi is None else self.scalar(ix.hi, Int)
                return SV(Str, z3.Function('str_slice', StrSort, I, I, StrSort)(v.z, lo, hi))
            return SV(Str, self.fresh('text', StrSort))
        if isinstance(v, Handle):
            c = self.cell(v)
            if c is not None:
                if c.kind == 'list':
                    if isinstance(ix, SliceV):
                        if all(x is None or isinstance(x, int) for x in (ix.lo, ix.hi, ix.step)):
                            return self.new_py('list', c.items[ix.lo:ix.hi:ix.step])
                        t = self.loc_t(v.loc)
                        if t.e is None:
                            return self.new_py('list', [])
                        return self.list_slice(self.flatten(v, t), t, ix)
                    if isinstance(ix, int):
                        if not -len(c.items) <= ix < len(c.items):
                            self.py_error('IndexError', 'list-index')
                        return c.items[ix]
                    z = self.index_term(ix, len(c.items))
                    self.check_index(z, len(c.items))
                    if not c.items:
                        if self.spec:
                            raise Unsupported('element of an empty list in a specification')
                        raise PathEnd()
                    return self.pick(list(c.items), z)
                if c.kind == 'dict':
                    return self.pydict_get(c, ix)
                raise Unsupported('set subscript')
            t = self.loc_t(v.loc)
            if isinstance(t, TList):
                terms = self.read(v.loc)
                if isinstance(ix, SliceV):
                    return self.list_slice(terms, t, ix)
                z = self.index_term(ix, terms[0])
                self.check_index(z, terms[0])
                return self.load(t.e, ElemLoc(v.loc, z, t.e))
            if isinstance(t, TDict):
                terms = self.read(v.loc)
                k = self.key_term(ix, t.k)
                self.py_check(sel(terms[1], k), 'KeyError', 'key-present')
                return self.load(t.v, ElemLoc(v.loc, k, t.v))
        if isinstance(v, ObjV) or isinstance(v, SV) and isinstance(v.t, TRef):
            m = self.getattr_or_none(v, '__getitem__')
            if m is not None:
                return self.call(m, [ix], {})
            cls = self.st.objs[v.addr][0] if isinstance(v, ObjV) else v.t.cls
            key = (cls if isinstance(cls, str) else cls.name) + '.__getitem__'
            if key in self.reg.externals:
                return self.apply_contract(self.reg.externals[key], v, [ix], {})
        if isinstance(v, SV) and isinstance(v.t, (TNode, TAny)) and 'node.__getitem__' in self.reg.externals:
            return self.apply_contract(self.reg.externals['node.__getitem__'], v, [ix], {})
        if isinstance(v, Seq):
            z = self.index_term(ix, v.n)
            self.check_index(z, v.n)
            return v.get(clen(z) if isinstance(v.n, int) else z)
        raise Unsupported('subscript of %r' % (v,))

    def list_slice(self, terms, t, ix):
        if ix.step is not None and ix.step != 1:
            if ix.step == -1 and ix.lo is None and ix.hi is None:
                n = terms[0]
                i = z3.Const('rv%d' % self.cnt, z3.IntSort())
                self.cnt += 1
                out = [n] + [z3.Lambda([i], sel(a, n - 1 - i)) for a in terms[1:]]
                return Handle(ConstLoc(t, out)) if self.spec else self.new_cell(t, out)
            if isinstance(ix.step, int) and ix.step > 1:
                st = ix.step
                ix1 = SliceV(ix.lo, ix.hi, None)
                lo, m = self.slice_bounds(ix1, clen(terms[0]))
                i = z3.Const('sl%d' % self.cnt, z3.IntSort())
                self.cnt += 1
                out = [(iz(m) + (st - 1)) / st] + [z3.Lambda([i], sel(a, i * st + lo)) for a in terms[1:]]
                return Handle(ConstLoc(t, out)) if self.spec else self.new_cell(t, out)
            raise Unsupported('slice step')
        lo, m = self.slice_bounds(ix, clen(terms[0]))
        i = z3.Const('sl%d' % self.cnt, z3.IntSort())
        self.cnt += 1
        lo0 = z3.is_int_value(lo) and lo.as_long() == 0
        out = [m] + [a if lo0 else z3.Lambda([i], sel(a, i + lo)) for a in terms[1:]]
        return Handle(ConstLoc(t, out)) if self.spec else self.new_cell(t, out)

    def pydict_get(self, c, k, default=UNDEF):
        cands, sure = [], None
        for kk, vv in c.items:
            e = self.eq(k, kk)
            if e is True:
                return vv
            if e is not False:
                cands.append((e, vv))
        if not cands:
            if default is not UNDEF:
                return default
            self.py_error('KeyError', 'key-present')
        anyc = as_bool(Or_(*[e for e, _ in cands]))
        if default is UNDEF:
            self.py_check(anyc, 'KeyError', 'key-present')
            v = cands[-1][1]
            rest = cands[:-1]
        else:
            v, rest = default, cands
        for e, x in reversed(rest):
            v = self.merge(e, x, v)
        return v

    def setitem(self, v, ix, val):
        v = self.unopt(v)
        if self.is_arr(v):
            return self.arr_set(v, self.arr_index(v, ix), val)
        val = self.settle(val)
        if isinstance(v, Handle):
            c = self.cell(v)
            ix = self.unopt(ix) if not isinstance(ix, (tuple, SliceV)) else ix
            if c is not None:
                if c.kind == 'list':
                    if isinstance(ix, int):
                        if not -len(c.items) <= ix < len(c.items):
                            self.py_error('IndexError', 'list-index')
                        c.items[ix] = val
                        self.pynote(v)
                        return
                    if isinstance(ix, SliceV):
                        raise Unsupported('list slice assignment')
                    self.promote(v, TList(self.join(self.loc_t(v.loc).e, self.type_of(val))))
                else:
                    if concrete_key(ix) and all(concrete_key(k) for k, _ in c.items):
                        for j, (k, _) in enumerate(c.items):
                            if self.eq(k, ix) is True:
                                c.items[j] = (k, val)
                                break
                        else:
                            c.items.append((ix, val))
                        self.pynote(v)
                        return
                    t = self.loc_t(v.loc)
                    self.promote(v, TDict(self.join(t.k, self.type_of(ix)), self.join(t.v, self.type_of(val))))
            t = self.loc_t(v.loc)
            if isinstance(t, TList):
                terms = self.read(v.loc)
                z = self.index_term(ix, terms[0])
                self.check_index(z, terms[0])
                zs = self.flatten(val, t.e)
                self.write(v.loc, [terms[0]] + [sto(a, z, y) for a, y in zip(terms[1:], zs)])
                self.moved(val, ElemLoc(v.loc, z, t.e), t.e)
                return
            if isinstance(t, TDict):
                self.write(v.loc, self.dict_put(t, self.read(v.loc), ix, val))
                self.moved(val, ElemLoc(v.loc, self.key_term(ix, t.k), t.v), t.v)
                return
        if isinstance(v, ObjV) or isinstance(v, SV) and isinstance(v.t, TRef):
            m = self.getattr_or_none(v, '__setitem__')
            if m is not None:
                return self.call(m, [ix, val], {})
            cls = self.st.objs[v.addr][0] if isinstance(v, ObjV) else v.t.cls
            key = (cls if isinstance(cls, str) else cls.name) + '.__setitem__'
            if key in self.reg.externals:
                return self.apply_contract(self.reg.externals[key], v, [ix, val], {})
        raise Unsupported('subscript assignment on %r' % (v,))

    def delitem(self, v, ix):
        v = self.unopt(v)
        if isinstance(v, Handle):
            c = self.cell(v)
            if c is not None and c.kind == 'dict' and concrete_key(ix):
                for j, (k, _) in enumerate(c.items):
                    if self.eq(k, ix) is True:
                        del c.items[j]
                        self.pynote(v)
                        return
                self.py_error('KeyError', 'key-present')
            if c is not None and c.kind == 'list' and isinstance(ix, int):
                if not -len(c.items) <= ix < len(c.items):
                    self.py_error('IndexError', 'list-index')
                del c.items[ix]
                self.pynote(v)
                return
            if c is not None:
                t = self.loc_t(v.loc)
                if t.e is None if isinstance(t, TList) else t.k is None:
                    self.py_error('KeyError', 'key-present')
                self.promote(v, t)
            t = self.loc_t(v.loc)
            if isinstance(t, TDict):
                terms = self.read(v.loc)
                k = self.key_term(ix, t.k)
                self.py_check(sel(terms[1], k), 'KeyError', 'key-present')
                self.write(v.loc, self.dict_remove(t, terms, k))
                return
            if isinstance(t, TList):
                terms = self.read(v.loc)
                z = self.index_term(ix, terms[0])
                self.check_index(z, terms[0])
                self.write(v.loc, self.list_remove_at(terms, z))
                return
        raise Unsupported('del on %r' % (v,))

    def dict_remove(self, t, terms, k):
        n, dom, keys, pos = terms[:4]
        p = sel(pos, k)
        i = z3.Const('dr%d' % self.cnt, z3.IntSort())
        x = z3.Const('dx%d' % self.cnt, key_sort(t.k))
        self.cnt += 1
        return [z3.simplify(n - 1), sto(dom, k, z3.BoolVal(False)),
                z3.Lambda([i], z3.If(i < p, sel(keys, i), sel(keys, i + 1))),
                z3.Lambda([x], z3.If(sel(pos, x) > p, sel(pos, x) - 1, sel(pos, x)))] + list(terms[4:])

    def list_remove_at(self, terms, z):
        i = z3.Const('lr%d' % self.cnt, z3.IntSort())
        self.cnt += 1
        return [z3.simplify(terms[0] - 1)] + [z3.Lambda([i], z3.If(i < z, sel(a, i), sel(a, i + 1)))
                                              for a in terms[1:]]

    def list_insert_at(self, terms, z, zs):
        i = z3.Const('li%d' % self.cnt, z3.IntSort())
        self.cnt += 1
        return [z3.simplify(terms[0] + 1)] + [
            z3.Lambda([i], z3.If(i < z, sel(a, i), z3.If(i == z, v, sel(a, i - 1)))) for a, v in zip(terms[1:], zs)]

    # ------------------------------------------------------------ arrays
    def arr_shape(self, v):
        if isinstance(v, LazyArr):
            return v.shape
        if isinstance(v, ArrView):
            return [s[2] for s in v.sels if s[0] == 's']
        t = self.loc_t(v.loc)
        return [clen(d) for d in self.read(v.loc)[:t.nd]]

    def as_lazy(self, v):
        v = self.unopt(v)
        if isinstance(v, LazyArr):
            return v
        if isinstance(v, ArrView):
            bt = self.loc_t(v.base)
            data = self.read(v.base)[-1]
            sels = list(v.sels)

            def fn(*ix):
                ix = list(ix)
                out = []
                for s in sels:
                    if s[0] == 'i':
                        out.append(iz(s[1]))
                    else:
                        j = iz(ix.pop(0))
                        lo = iz(s[1])
                        out.append(j if z3.is_int_value(lo) and lo.as_long() == 0 else z3.simplify(j + lo)
                                   if z3.is_int_value(j) else j + lo)
                return mk(bt.e, sel_nd(data, out))
            return LazyArr(bt.e, [clen(s[2]) for s in sels if s[0] == 's'], fn)
        if isinstance(v, Handle) and self.cell(v) is None and isinstance(self.loc_t(v.loc), TArr):
            t = self.loc_t(v.loc)
            terms = self.read(v.loc)
            return LazyArr(t.e, [clen(d) for d in terms[:t.nd]],
                           lambda *ix: mk(t.e, sel_nd(terms[-1], [iz(i) for i in ix])))
        if isinstance(v, (int, float, bool, str)) or isinstance(v, SV):
            return LazyArr(self.type_of(v), [], lambda: v)
        if isinstance(v, (Handle, tuple, Seq)):
            return self.lazy_from_list(v)
        raise Unsupported('array from %r' % (v,))

    def lazy_from_list(self, v):
        s = self.seq_of(v)
        e = self.seq_type(s)
        if e is None:
            return LazyArr(Real, [0], lambda i: 0.0)
        if isinstance(e, TArr) or isinstance(e, (TList, TTuple)):
            if isinstance(s.n, int) and s.n:
                rows = [self.as_lazy(s.get(i)) for i in range(s.n)]
                el = rows[0].e
                for r in rows:
                    el = self.join(el, r.e)

                def fn2(i, *ix):
                    c = clen(i) if not isinstance(i, int) else i
                    if isinstance(c, int):
                        return rows[c].fn(*ix)
                    out = self.flatten(rows[-1].fn(*ix), el)[0]
                    for q in range(len(rows) - 2, -1, -1):
                        out = z3.If(i == q, self.flatten(rows[q].fn(*ix), el)[0], out)
                    return mk(el, out)
                return LazyArr(el, [s.n] + list(rows[0].shape), fn2)
            if isinstance(e, TTuple) and e.ts and all(isinstance(x, TScalar) for x in e.ts):
                el = e.ts[0]
                for x in e.ts[1:]:
                    el = self.join(el, x)

                def fn3(i, j):
                    row = s.get(i)
                    out = self.scalar(row[-1], el)
                    for q in range(len(e.ts) - 2, -1, -1):
                        out = z3.If(iz(j) == q, self.scalar(row[q], el), out)
                    return mk(el, out)
                return LazyArr(el, [s.n, len(e.ts)], fn3)
            raise Unsupported('nested array')
        if isinstance(e, TEnum):
            e = Int
        return LazyArr(e, [s.n], lambda i: s.get(clen(i)) if isinstance(s.n, int) else s.get(i))

    def lazy_index(self, lz, sels):
        """apply normalised index list to a lazy array"""
        sels = list(sels) + [('s', z3.IntVal(0), d) for d in lz.shape[len(sels):]]
        shape = [clen(s[2]) for s in sels if s[0] == 's'] if not any(s[0] == 'f' for s in sels) else None

        if shape is None:
            shape = []
            for s in sels:
                if s[0] == 's':
                    shape.append(clen(s[2]))
                elif s[0] == 'f':
                    shape.append(clen(s[1].shape[0]))

        def fn(*ix):
            ix = list(ix)
            out = []
            for s in sels:
                if s[0] == 'i':
                    out.append(iz(s[1]))
                elif s[0] == 's':
                    j = iz(ix.pop(0))
                    lo = iz(s[1])
                    if len(s) > 3:
                        out.append(s[3](j))
                    else:
                        out.append(j if z3.is_int_value(lo) and lo.as_long() == 0 else j + lo)
                else:
                    out.append(self.scalar(s[1].fn(ix.pop(0)), Int))
            return lz.fn(*out)
        if not shape:
            return fn()
        return LazyArr(lz.e, shape, fn)

    def arr_index(self, v, ix):
        shape = self.arr_shape(v)
        ixs = list(ix) if isinstance(ix, tuple) else [ix]
        if len(ixs) > len(shape):
            raise Unsupported('too many indices')
        out = []
        nf = 0
        for x, n in zip(ixs, shape):
            x = self.unopt(x) if not isinstance(x, SliceV) else x
            if isinstance(x, SliceV):
                if x.step is not None and x.step != 1:
                    if x.step == -1 and x.lo is None and x.hi is None:
                        nz = iz(n)
                        out.append(('s', z3.IntVal(0), n, lambda j, nz=nz: nz - 1 - j))
                        continue
                    raise Unsupported('array slice step')
                if x.lo is None and x.hi is None:
                    out.append(('s', z3.IntVal(0), n))
                    continue
                lo, m = self.slice_bounds(x, n)
                out.append(('s', lo, clen(m)))
            elif self.is_arr(x) or isinstance(x, Handle):
                lz = self.as_lazy(x)
                if len(lz.shape) == 0:
                    out.append(('i', self.scalar(lz.fn(), Int)))
                    continue
                if len(lz.shape) != 1:
                    raise Unsupported('index array rank')
                if isinstance(lz.e, TBool):
                    s = Seq(lz.shape[0], lambda i: i)
                    fs = self.filter_seq(Seq(iz(lz.shape[0]), lambda i: mk(Int, iz(i))),
                                         lambda i: self.scalar(lz.fn(i), Bool))
                    out.append(('f', LazyArr(Int, [fs.n], fs.get), lz))
                else:
                    self.check_all_index(lz, n)
                    out.append(('f', lz))
                nf += 1
            else:
                z = self.index_term(x, n)
                self.check_index(z, n)
                out.append(('i', z))
        if nf > 1:
            raise Unsupported('several index arrays')
        return out

    def check_all_index(self, lz, n):
        if self.spec:
            return
        m = lz.shape[0]
        if isinstance(m, int):
            for i in range(m):
                z = self.scalar(lz.fn(z3.IntVal(i)), Int)
                self.check_index(z, n)
            return
        i = self.fresh('ci', z3.IntSort())
        z = self.scalar(lz.fn(i), Int)
        self.py_check(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < m), z3.And(z >= 0, z < iz(n)))), 'IndexError',
                      'indices-in-range')

    def arr_get(self, v, sels):
        if isinstance(v, LazyArr):
            return self.lazy_index(v, sels)
        shape = self.arr_shape(v)
        full = list(sels) + [('s', z3.IntVal(0), d) for d in shape[len(sels):]]
        if all(s[0] == 'i' for s in full) or any(s[0] == 'f' or len(s) > 3 for s in full):
            if isinstance(v, Handle) and all(s[0] == 'i' for s in full):
                t = self.loc_t(v.loc)
                return mk(t.e, sel_nd(self.read(v.loc)[-1], [iz(s[1]) for s in full]))
            return self.lazy_index(self.as_lazy(v), full)
        base, bsels = self.view_sels(v, full)
        return ArrView(base, bsels)

    def view_sels(self, v, full):
        if isinstance(v, Handle):
            return v.loc, full
        out, todo = [], list(full)
        for s in v.sels:
            if s[0] == 'i':
                out.append(s)
            else:
                t = todo.pop(0)
                z0 = z3.is_int_value(iz(s[1])) and iz(s[1]).as_long() == 0
                off = (lambda q: iz(q) if z0 else z3.simplify(iz(q) + iz(s[1])))
                if t[0] == 'i':
                    out.append(('i', off(t[1])))
                elif t[0] == 's' and len(t) == 3:
                    out.append(('s', off(t[1]), t[2]))
                else:
                    raise Unsupported('assignment through index array of a view')
        return v.base, out

    def arr_set(self, v, sels, val):
        if isinstance(v, LazyArr):
            raise Unsupported('assignment into a temporary array')
        shape = self.arr_shape(v)
        full = list(sels) + [('s', z3.IntVal(0), d) for d in shape[len(sels):]]
        if isinstance(v, Handle) and any(s[0] == 'f' for s in full):
            base, bs = v.loc, full
        else:
            base, bs = self.view_sels(v, full)
        t = self.loc_t(base)
        terms = self.read(base)
        data = terms[-1]
        if all(s[0] == 'i' for s in bs):
            lz = self.as_lazy(val)
            x = val if not lz.shape else self.lazy_index(lz, [('i', z3.IntVal(0))])
            if lz.shape:
                self.py_check(as_bool(iz(lz.shape[0]) == 1), 'ValueError', 'assign-shape')
            z = self.scalar(self.as_lazy(x).fn() if self.is_arr(x) else x, t.e)
            terms[-1] = store_nd(data, [iz(s[1]) for s in bs], z)
            return self.write(base, terms)
        lz = self.as_lazy(val)
        dims = [s for s in bs if s[0] != 'i']
        if lz.shape:
            off = len(dims) - len(lz.shape)
            for s, d in zip(dims[off:], lz.shape):
                m = s[2] if s[0] == 's' else s[1].shape[0]
                if isinstance(d, int) and d == 1:
                    continue
                self.py_check(as_bool(iz(m) == iz(d)), 'ValueError', 'assign-shape')
        fs = [s for s in bs if s[0] == 'f']
        if fs:
            return self.write(base, terms[:-1] + [self.fancy_store(data, bs, lz, t)])
        ixs = [z3.Const('av%d_%d' % (self.cnt, j), z3.IntSort()) for j in range(len(bs))]
        self.cnt += 1
        conds, coord = [], []
        for x, s in zip(ixs, bs):
            if s[0] == 'i':
                conds.append(x == iz(s[1]))
            else:
                lo0 = z3.is_int_value(iz(s[1])) and iz(s[1]).as_long() == 0
                conds.append(z3.And(iz(s[1]) <= x, x < iz(s[1]) + iz(s[2])))
                coord.append(x if lo0 else x - iz(s[1]))
        vz = self.scalar(self.bcast(lz, coord), t.e)
        body = z3.If(z3.And(*conds), vz, sel_nd(data, ixs))
        # keep leading constant index as a store
        k = 0
        while bs[k][0] == 'i':
            k += 1
        if k:
            inner = sel_nd(data, [iz(s[1]) for s in bs[:k]])
            body = z3.If(z3.And(*conds[k:]), vz, sel_nd(inner, ixs[k:]))
            for x in reversed(ixs[k:]):
                body = z3.Lambda([x], body)
            new = store_nd(data, [iz(s[1]) for s in bs[:k]], body)
        else:
            new = body
            for x in reversed(ixs):
                new = z3.Lambda([x], new)
        self.write(base, terms[:-1] + [new])

    def bcast(self, lz, coord):
        k = len(lz.shape)
        c = list(coord)[len(coord) - k:] if k else []
        c = [z3.IntVal(0) if isinstance(d, int) and d == 1 else x for x, d in zip(c, lz.shape)]
        return lz.fn(*c)

    def fancy_store(self, data, bs, lz, t):
        ax = [j for j, s in enumerate(bs) if s[0] == 'f'][0]
        s = bs[ax]
        idx = s[1]
        m = idx.shape[0]
        if len(s) > 2:       # boolean mask
            mask = s[2]
        if len(bs) == 1 and isinstance(m, int):
            for j in range(m):
                z = self.scalar(idx.fn(z3.IntVal(j)), Int)
                data = sto(data, z, self.scalar(self.bcast(lz, [z3.IntVal(j)]), t.e))
            return data
        ixs = [z3.Const('fv%d_%d' % (self.cnt, j), z3.IntSort()) for j in range(len(bs))]
        self.cnt += 1
        I = z3.IntSort()
        w = self.fresh('wr', z3.ArraySort(I, I))
        p = z3.Const('p', I)
        j = z3.Const('j', I)
        ij = self.scalar(idx.fn(j), Int)
        iw = self.scalar(idx.fn(w[p]), Int)
        self.assume(z3.ForAll([p], z3.And(-1 <= w[p], w[p] < m, z3.Implies(w[p] >= 0, iw == p)), patterns=[w[p]]))
        self.assume(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < m), w[ij] >= j)))
        conds, coord = [], []
        for q, (x, u) in enumerate(zip(ixs, bs)):
            if q == ax:
                conds.append(w[x] >= 0)
                coord.append(w[x])
            elif u[0] == 'i':
                conds.append(x == iz(u[1]))
            else:
                conds.append(z3.And(iz(u[1]) <= x, x < iz(u[1]) + iz(u[2])))
                coord.append(x - iz(u[1]))
        body = z3.If(z3.And(*conds), self.scalar(self.bcast(lz, coord), t.e), sel_nd(data, ixs))
        for x in reversed(ixs):
            body = z3.Lambda([x], body)
        return body

    def arr_assign_all(self, v, r):
        shape = self.arr_shape(v)
        self.arr_set(v, [('s', z3.IntVal(0), d) for d in shape], r)

    def arr_map2(self, f, e, x, y):
        lx, ly = self.as_lazy(x), self.as_lazy(y)
        nx, ny = len(lx.shape), len(ly.shape)
        nd = max(nx, ny)
        shape = []
        for i in range(nd):
            dx = lx.shape[i - (nd - nx)] if i >= nd - nx else 1
            dy = ly.shape[i - (nd - ny)] if i >= nd - ny else 1
            if isinstance(dx, int) and dx == 1:
                shape.append(dy)
            elif isinstance(dy, int) and dy == 1:
                shape.append(dx)
            else:
                if not (isinstance(dx, int) and isinstance(dy, int) and dx == dy):
                    self.py_check(as_bool(iz(dx) == iz(dy)), 'ValueError', 'shapes-agree')
                shape.append(dx)
        if not self.spec and nd:
            ix = [self.fresh('e', z3.IntSort()) for _ in shape]
            mark = len(self.st.pc)
            for v, d in zip(ix, shape):
                self.st.pc.append(('C', z3.And(0 <= v, v < iz(d))))
            try:
                f(self.bcast(lx, ix), self.bcast(ly, ix))
            finally:
                del self.st.pc[mark:]

        def fn(*ix):
            sp, self.spec = self.spec, self.spec + 1
            try:
                return f(self.bcast(lx, ix), self.bcast(ly, ix))
            finally:
                self.spec = sp
        return LazyArr(e, shape, fn)

    def arr_cmp(self, name, x, y):
        def f(p, q):
            if name == '==':
                r = self.eq(p, q)
            else:
                t = self.join(self.type_of(p), self.type_of(q))
                a, c = self.scalar(p, t), self.scalar(q, t)
                r = {'<': a < c, '<=': a <= c, '>': a > c, '>=': a >= c}[name]
            return SV(Bool, b(r))
        lx = self.arr_map2(f, Bool, x, y)
        return lx if lx.shape else self.to_bool(as_bool(self.truth(lx.fn())))

    def dtype(self, d, default):
        if d is None:
            return default
        if isinstance(d, Ext):
            return DT.get(d.path.split('.')[-1], None) or self.bad('dtype %s' % d.path)
        if isinstance(d, Builtin):
            return DT[d.name]
        if isinstance(d, str):
            return DT[d]
        raise Unsupported('dtype')

    def bad(self, m):
        raise Unsupported(m)

    def shape_of(self, s):
        if isinstance(s, (tuple, Handle)):
            sq = self.seq_of(s)
            if not isinstance(sq.n, int):
                raise Unsupported('shape')
            return [self.dim(sq.get(i)) for i in range(sq.n)]
        return [self.dim(s)]

    def dim(self, x):
        if isinstance(x, int):
            return x
        z = self.scalar(x, Int)
        self.py_check(as_bool(z >= 0), 'ValueError', 'dimension-nonnegative')
        return clen(z)

    def call_ext(self, f, args, kw):
        p = f.path
        parts = p.split('.')
        if parts[0] in ('np', 'numpy', 'npy'):
            m = getattr(self, 'np_' + '_'.join(parts[1:]), None)
            if m is None:
                raise Unsupported('numpy.%s' % '.'.join(parts[1:]))
            return m(*args, **kw)
        if parts[0] == 'ast' and len(parts) == 2 and hasattr(ast, parts[1]):
            return self.ast_new(parts[1], args, kw)
        if parts[0] == 'logging' or parts[-1] in ('debug', 'info', 'warning', 'warn', 'error') and \
                parts[0] in ('logger', 'log', 'warnings'):
            if parts[-1] == 'getLogger':
                return Ext('logger')
            return None
        if parts[0] == 'builtins':
            return Raised(parts[1], tuple(args))
        if p in ('copy.copy',):
            return self.copy_of(args[0])
        if p in ('copy.deepcopy',):
            return self.copy_of(args[0], deep=True)
        if parts[0] == 'uuid' and parts[-1] in ('uuid4', 'uuid1'):
            return Ext('uuid.value')
        if p == 'functools.reduce':
            return self.reduce_(*args)
        if p == 'operator.add':
            return self.binop(ast.Add(), args[0], args[1])
        if p == 'itertools.chain':
            out = []
            for a in args:
                s = self.seq_of(a)
                if not isinstance(s.n, int):
                    raise Unsupported('chain')
                out += [s.get(i) for i in range(s.n)]
            return self.items_seq(tuple(out))
        if p == 'collections.namedtuple':
            names = args[1]
            if isinstance(names, str):
                names = names.replace(',', ' ').split()
            else:
                s = self.seq_of(names)
                names = [s.get(i) for i in range(s.n)]
            return NTClass(args[0], names)
        if p in ('collections.OrderedDict',):
            return self.bi_dict(*args, **kw)
        if parts[0] == 'numba' and parts[-1] in DT:
            return self.conv(DT[parts[-1]], args[0])
        if parts[0] in ('numba', 'llvmlite') and parts[-1] in ('njit', 'jit', 'float64'):
            return args[0] if args else None
        if p.startswith('math.'):
            return self.math(parts[1], args)
        raise Unsupported('library call %s' % p)

    def reduce_(self, fn, seq, init=UNDEF):
        s = self.seq_of(seq)
        if not isinstance(s.n, int):
            if isinstance(fn, Ext) and fn.path == 'operator.add' and init is UNDEF:
                self.py_check(s.n > 0, 'TypeError', 'reduce-of-something')
                return self.bi_sum(s)
            raise Unsupported('reduce over symbolic sequence')
        items = [s.get(i) for i in range(s.n)]
        acc = init if init is not UNDEF else items.pop(0)
        for x in items:
            acc = self.call(fn, [acc, x], {})
        return acc

    def math(self, name, args):
        if name == 'floor':
            return SV(Int, z3.ToInt(self.scalar(args[0], Real)))
        raise Unsupported('math.' + name)

    def ast_new(self, name, args, kw):
        fields = list(getattr(ast, name)._fields)
        d = dict(zip(fields, args))
        d.update(kw)
        return self.new_obj('ast.' + name, d)

    def copy_of(self, v, deep=False):
        v = self.unopt(v)
        if isinstance(v, Handle):
            c = self.cell(v)
            if c is not None:
                items = list(c.items)
                if deep:
                    items = [tuple(self.copy_of(y, True) for y in x) if isinstance(x, tuple) else self.copy_of(x, True)
                             for x in items]
                return self.new_py(c.kind, items)
            t = self.loc_t(v.loc)
            if deep and has_ref(t):
                if not isinstance(t, TList) or not isinstance(t.e, TRef) or self.spec:
                    raise Unsupported('deep copy of %r' % t)
                return self.copied_objects(self.read(v.loc), t)
            return Handle(ConstLoc(t, self.read(v.loc))) if self.spec else self.new_cell(t, self.read(v.loc))
        if isinstance(v, (LazyArr, ArrView)):
            return self.settle(self.as_lazy(v))
        if deep and isinstance(v, SV) and has_ref(v.t):
            raise Unsupported('deep copy of an object')
        if isinstance(v, (int, float, str, bool, type(None), SV, EnumV, FuncV, ClassV)):
            return v
        if isinstance(v, tuple):
            return v if not deep else tuple(self.copy_of(x, True) for x in v)
        raise Unsupported('copy of %r' % (v,))

    def copied_objects(self, terms, t):
        """deepcopy of a list of objects: one new object for each different one, equal field by field"""
        cls = t.e.cls
        rc = self.reg.refs[cls]
        if any(has_ref(x) for x in rc.fields.values()):
            raise Unsupported('deep copy of objects that refer to objects')
        I = z3.IntSort()
        n, a = terms
        lo = self.st.alloc[cls]
        hi = self.fresh('alloc', I)
        cp, inv = self.fresh('copies', z3.ArraySort(I, I)), self.fresh('origs', z3.ArraySort(I, I))
        i, r = z3.Ints('ci cr')
        self.assume(hi >= lo)
        self.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), z3.And(lo <= cp[a[i]], cp[a[i]] < hi, inv[cp[a[i]]] == a[i])), patterns=[a[i]]))
        self.assume(z3.ForAll([r], z3.Implies(z3.And(lo <= r, r < hi), z3.And(0 <= inv[r], inv[r] < lo)), patterns=[inv[r]]))
        self.note_write(('alloc', cls), None)
        self.st.alloc[cls] = hi
        for f in rc.fields:
            self.note_write(('farr', cls, f), None)
            self.st.farr[(cls, f)] = tuple(z3.Lambda([r], z3.If(z3.And(lo <= r, r < hi), sel(x, inv[r]), sel(x, r))) for x in self.st.farr[(cls, f)])
        return self.new_cell(t, [n, z3.Lambda([i], cp[a[i]])])

    # numpy functions ------------------------------------------------
    def const_arr(self, shape, v, e):
        return LazyArr(e, self.shape_of(shape), lambda *ix: v)

    def np_zeros(self, shape, dtype=None):
        return self.const_arr(shape, 0, self.dtype(dtype, Real))

    def np_ones(self, shape, dtype=None):
        return self.const_arr(shape, 1, self.dtype(dtype, Real))

    def np_full(self, shape, v, dtype=None):
        return self.const_arr(shape, v, self.dtype(dtype, self.type_of(v)))

    def np_empty(self, shape, dtype=None):
        e = self.dtype(dtype, Real)
        sh = self.shape_of(shape)
        a = self.fresh('empty', nest(len(sh), e.sort))
        return LazyArr(e, sh, lambda *ix: mk(e, sel_nd(a, [iz(i) for i in ix])))

    def np_zeros_like(self, a, dtype=None):
        lz = self.as_lazy(a)
        return LazyArr(self.dtype(dtype, lz.e), lz.shape, lambda *ix: 0)

    def np_ones_like(self, a, dtype=None):
        lz = self.as_lazy(a)
        return LazyArr(self.dtype(dtype, lz.e), lz.shape, lambda *ix: 1)

    def np_array(self, a, dtype=None):
        lz = self.as_lazy(a)
        e = self.dtype(dtype, lz.e)
        r = LazyArr(e, lz.shape, lambda *ix: self.conv(e, lz.fn(*ix)) if e != lz.e else lz.fn(*ix))
        return r if not r.shape else (r if self.spec else self.settle(r))

    def np_asarray(self, a, dtype=None):
        if self.is_arr(a) and dtype is None:
            return a
        return self.np_array(a, dtype)

    def np_arange(self, *a, dtype=None):
        lo, hi = (0, a[0]) if len(a) == 1 else (a[0], a[1])
        s = self.bi_range(lo, hi)
        return LazyArr(Int, [s.n], lambda i: s.get(i))

    def np_copy(self, a):
        return self.settle(self.as_lazy(a))

    def np_ascontiguousarray(self, a, dtype=None):
        return self.settle(self.as_lazy(a))

    def np_diag(self, a):
        lz = self.as_lazy(a)
        if len(lz.shape) != 1:
            raise Unsupported('diag of a matrix')
        n = lz.shape[0]
        zero = 0 if isinstance(lz.e, TInt) else 0.0
        return LazyArr(lz.e, [n, n], lambda i, j: mk(lz.e, z3.If(iz(i) == iz(j), self.scalar(lz.fn(i), lz.e), self.scalar(zero, lz.e))))

    def np_append(self, a, c):
        lx, ly = self.as_lazy(a), self.as_lazy(c)
        if not ly.shape:
            v = ly.fn()
            ly = LazyArr(ly.e, [1], lambda i: v)
        if len(lx.shape) != 1 or len(ly.shape) != 1:
            raise Unsupported('append of matrices')
        e = self.join(lx.e, ly.e)
        n = iz(lx.shape[0])
        return LazyArr(e, [clen(n + iz(ly.shape[0]))],
                       lambda i: mk(e, z3.If(iz(i) < n, self.scalar(lx.fn(i), e), self.scalar(ly.fn(iz(i) - n), e))))

    def np_dot(self, a, c):
        lx, ly = self.as_lazy(a), self.as_lazy(c)
        if not lx.shape or not ly.shape:
            return self.binop(ast.Mult(), a, c)
        if len(lx.shape) == 1 and len(ly.shape) == 1 and isinstance(lx.shape[0], int):
            r = 0
            for i in range(lx.shape[0]):
                r = self.binop(ast.Add(), r, self.binop(ast.Mult(), lx.fn(z3.IntVal(i)), ly.fn(z3.IntVal(i))))
            return r
        raise Unsupported('symbolic dot product')

    def np_any(self, a):
        return self.quant(a, 'any')

    def np_all(self, a):
        return self.quant(a, 'all')

    def quant(self, a, kind):
        lz = self.as_lazy(a)
        if not lz.shape:
            return lz.fn()
        if len(lz.shape) > 1:
            raise Unsupported('any/all over matrix')
        n = lz.shape[0]
        if isinstance(n, int):
            cs = [b(self.truth(lz.fn(z3.IntVal(i)))) for i in range(n)]
            return self.to_bool(as_bool(Or_(*cs) if kind == 'any' else And_(*cs)))
        i = z3.Const('an%d' % self.cnt, z3.IntSort())
        self.cnt += 1
        c = b(self.truth(lz.fn(i)))
        g = z3.And(0 <= i, i < n)
        return SV(Bool, z3.Exists([i], z3.And(g, c)) if kind == 'any' else z3.ForAll([i], z3.Implies(g, c)))

    def np_sum(self, a):
        return self.bi_sum(a)

    def np_isnan(self, a):
        if getattr(self.reg, 'nan_value', False):
            # no arithmetic on it: not-a-number is one distinguished value
            self.assumed.add('not-a-number is a single distinguished value')
            nan = real_val(float('nan'))
            if self.is_arr(a):
                lz = self.as_lazy(a)
                return LazyArr(Bool, lz.shape, lambda *ix: mk(Bool, self.scalar(lz.fn(*ix), Real) == nan))
            return mk(Bool, self.scalar(a, Real) == nan)
        # reals model: never nan
        self.assumed.add('floating point treated as exact reals without nan')
        if self.is_arr(a):
            lz = self.as_lazy(a)
            return LazyArr(Bool, lz.shape, lambda *ix: False)
        return False

    def np_delete(self, a, idx):
        la = self.as_lazy(a)
        n = la.shape[0]
        if isinstance(idx, int) or isinstance(idx, SV):
            z = self.index_term(idx, n)
            self.check_index(z, n)
            return LazyArr(la.e, [clen(z3.simplify(iz(n) - 1))],
                           lambda i: mk(la.e, z3.If(iz(i) < z, self.scalar(la.fn(iz(i)), la.e),
                                                    self.scalar(la.fn(iz(i) + 1), la.e))))
        li = self.as_lazy(idx)
        self.check_all_index(li, n)
        j = z3.Const('nd%d' % self.cnt, z3.IntSort())
        self.cnt += 1
        m = li.shape[0]

        def keep(i):
            return z3.Not(z3.Exists([j], z3.And(0 <= j, j < iz(m), self.scalar(li.fn(j), Int) == iz(i))))
        fs = self.filter_seq(Seq(iz(n), lambda i: mk(Int, iz(i))), keep)
        return LazyArr(la.e, [fs.n], lambda i: la.fn(self.scalar(fs.get(i), Int)))

    def np_where(self, c, *rest):
        lz = self.as_lazy(c)
        if rest:
            x, y = rest
            lx, ly = self.as_lazy(x), self.as_lazy(y)
            e = self.join(lx.e, ly.e)
            return LazyArr(e, lz.shape, lambda *ix: mk(e, z3.If(b(self.truth(lz.fn(*ix))),
                                                                self.scalar(self.bcast(lx, ix), e),
                                                                self.scalar(self.bcast(ly, ix), e))))
        fs = self.filter_seq(Seq(iz(lz.shape[0]), lambda i: mk(Int, iz(i))), lambda i: b(self.truth(lz.fn(i))))
        return (LazyArr(Int, [clen(fs.n)], fs.get),)

    def np_argwhere(self, c):
        w = self.np_where(c)[0]
        return LazyArr(Int, [w.shape[0], 1], lambda i, j: w.fn(i))

    def np_flatnonzero(self, c):
        return self.np_where(c)[0]

    def np_nonzero(self, c):
        return self.np_where(c)

    def np_floor(self, x):
        return SV(Real, z3.ToReal(z3.ToInt(self.scalar(x, Real))))

    def np_ceil(self, x):
        return SV(Real, z3.ToReal(-z3.ToInt(-self.scalar(x, Real))))

    def np_abs(self, x):
        return self.bi_abs(x)

    np_absolute = np_abs

    def np_isclose(self, a, b, rtol=1e-05, atol=1e-08):
        d = self.np_abs(self.binop(ast.Sub(), a, b))
        return self.compare(ast.LtE(), d, self.binop(ast.Add(), atol, self.binop(ast.Mult(), rtol, self.np_abs(b))))

    def np_allclose(self, a, b, rtol=1e-05, atol=1e-08):
        r = self.np_isclose(a, b, rtol, atol)
        return self.np_all(r) if isinstance(r, LazyArr) else r

    def np_clip(self, x, lo, hi):
        # numpy: minimum(hi, maximum(x, lo))
        return self.bi_min(self.bi_max(x, lo), hi)

    def np_minimum(self, x, y):
        return self.bi_min(x, y)

    def np_maximum(self, x, y):
        return self.bi_max(x, y)

    def np_max(self, a):
        return self.bi_max(a)

    def np_min(self, a):
        return self.bi_min(a)

    def np_int64(self, x=0):
        return self.conv(Int, x)

    np_int32 = np_int64

    def np_float64(self, x=0.0):
        return self.conv(Real, x)

    def np_reshape(self, a, shape):
        lz = self.as_lazy(a)
        sh = self.shape_of(shape)
        if len(lz.shape) == 1 and len(sh) == 2 and isinstance(sh[1], int) and sh[1] == 1:
            return LazyArr(lz.e, [lz.shape[0], 1], lambda i, j: lz.fn(i))
        if len(lz.shape) == 1 and len(sh) == 2 and isinstance(sh[0], int) and sh[0] == 1:
            return LazyArr(lz.e, [1, lz.shape[0]], lambda i, j: lz.fn(j))
        if len(lz.shape) == 2 and len(sh) == 1 and isinstance(lz.shape[1], int) and lz.shape[1] == 1:
            return LazyArr(lz.e, [lz.shape[0]], lambda i: lz.fn(i, z3.IntVal(0)))
        raise Unsupported('reshape')

    def np_array_equal(self, a, c):
        la, lc = self.as_lazy(a), self.as_lazy(c)
        i = z3.Const('ae%d' % self.cnt, z3.IntSort())
        self.cnt += 1
        if len(la.shape) != 1 or len(lc.shape) != 1:
            raise Unsupported('array_equal')
        return SV(Bool, z3.And(iz(la.shape[0]) == iz(lc.shape[0]), z3.ForAll([i], z3.Implies(
            z3.And(0 <= i, i < iz(la.shape[0])), b(self.eq(la.fn(i), lc.fn(i)))))))

    # ------------------------------------------------------------ methods of built-in values
    def call_method(self, m, args, kw):
        v, name = m.recv, m.name
        if isinstance(v, Super):
            raise Unsupported('super attribute')
        if name == '__getitem__' and len(args) == 1 and not kw and (isinstance(v, (Handle, tuple)) or self.is_arr(v)):
            return self.getitem(v, args[0])
        if self.is_arr(v):
            return self.arr_method(v, name, args, kw)
        if name == 'copy' and not args and not kw and isinstance(v, SV) and isinstance(v.t, (TInt, TReal)):
            return v                     # a numpy scalar
        if isinstance(v, (str, SV)):
            return self.str_method(v, name, args, kw)
        if isinstance(v, tuple):
            if name == 'index':
                return self.list_index(v, args[0])
            if name == 'count':
                return self.count_(v, args[0])
            if name == '_asdict':
                return self.new_py('dict', list(zip(v.names, v)))
        if isinstance(v, Seq):
            v = self.list_from_seq(v)
        if isinstance(v, Handle):
            c = self.cell(v)
            kind = c.kind if c is not None else {TList: 'list', TDict: 'dict', TSet: 'set'}[type(self.loc_t(v.loc))]
            f = getattr(self, '%s_%s' % ('m' + kind, name), None)
            if f is None:
                raise Unsupported('%s.%s' % (kind, name))
            return f(v, *args, **kw)
        raise Unsupported('method %s of %r' % (name, v))

    # list
    def mlist_append(self, h, v):
        self.list_append(h, v)

    def mlist_extend(self, h, v):
        self.list_extend(h, v)

    def mlist_copy(self, h):
        return self.copy_of(h)

    def mlist_index(self, h, x):
        return self.list_index(h, x)

    def mlist_count(self, h, x):
        return self.count_(h, x)

    def count_(self, h, x):
        s = self.seq_of(h)
        if isinstance(s.n, int):
            es = [self.eq(s.get(i), x) for i in range(s.n)]
            if all(isinstance(e, bool) for e in es):
                return sum(es)
            return mk(Int, z3.Sum([z3.If(b(e), 1, 0) for e in es]))
        raise Unsupported('count')

    def list_index(self, h, x):
        s = self.seq_of(h)
        if isinstance(s.n, int):
            es = [self.eq(s.get(i), x) for i in range(s.n)]
            self.py_check(as_bool(Or_(*[b(e) for e in es])) if es else False, 'ValueError', 'element-present')
            r = None
            for i in range(s.n - 1, -1, -1):
                if es[i] is True:
                    r = i
                elif es[i] is not False:
                    r = i if r is None else self.merge(es[i], i, r)
            return r
        self.py_check(self.contains(x, h), 'ValueError', 'element-present')
        r = self.fresh('ix', z3.IntSort())
        i = z3.Const('li%d' % self.cnt, z3.IntSort())
        self.cnt += 1
        self.assume(z3.And(0 <= r, r < s.n, b(self.eq(s.get(r), x))))
        self.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < r), z3.Not(b(self.eq(s.get(i), x))))))
        return SV(Int, r)

    def mlist_pop(self, h, i=-1):
        c = self.cell(h)
        if c is not None:
            if isinstance(i, int):
                if not -len(c.items) <= i < len(c.items):
                    self.py_error('IndexError', 'pop-index')
                v = c.items.pop(i)
                self.pynote(h)
                return v
            self.promote(h, self.loc_t(h.loc))
        t = self.loc_t(h.loc)
        terms = self.read(h.loc)
        z = self.index_term(i, terms[0])
        self.check_index(z, terms[0])
        v = self.unflatten_own(t.e, [sel(a, z) for a in terms[1:]])
        if isinstance(i, int) and i == -1:
            self.write(h.loc, [z3.simplify(terms[0] - 1)] + terms[1:])
        else:
            self.write(h.loc, self.list_remove_at(terms, z))
        return v

    def unflatten_own(self, t, terms):
        return self.unflatten(t, terms)

    def mlist_remove(self, h, x):
        c = self.cell(h)
        if c is not None:
            es = [self.eq(y, x) for y in c.items]
            if all(isinstance(e, bool) for e in es):
                if True not in es:
                    self.py_error('ValueError', 'element-present')
                del c.items[es.index(True)]
                self.pynote(h)
                return
            self.promote(h, self.loc_t(h.loc))
        ix = self.list_index(h, x)
        self.write(h.loc, self.list_remove_at(self.read(h.loc), self.scalar(ix, Int)))

    def mlist_insert(self, h, i, x):
        c = self.cell(h)
        if c is not None and isinstance(i, int):
            c.items.insert(i, x)
            self.pynote(h)
            return
        if c is not None:
            self.promote(h, TList(self.join(self.loc_t(h.loc).e, self.type_of(x))))
        t = self.loc_t(h.loc)
        terms = self.read(h.loc)
        lo, _ = self.slice_bounds(SliceV(i, None, None), clen(terms[0]))
        self.write(h.loc, self.list_insert_at(terms, lo, self.flatten(x, t.e)))

    def mlist_clear(self, h):
        self.clear_(h)

    def clear_(self, h):
        c = self.cell(h)
        if c is not None:
            del c.items[:]
            self.pynote(h)
            return
        t = self.loc_t(h.loc)
        self.write(h.loc, self.empty_terms(t))

    mdict_clear = clear_
    mset_clear = clear_

    def mlist_reverse(self, h):
        c = self.cell(h)
        if c is not None:
            c.items.reverse()
            self.pynote(h)
            return
        t = self.loc_t(h.loc)
        r = self.list_slice(self.read(h.loc), t, SliceV(None, None, -1))
        self.write(h.loc, self.read(r.loc))

    def mlist_sort(self, h, key=None, reverse=False):
        s = self.bi_sorted(h, key=key, reverse=reverse)
        c = self.cell(h)
        if c is not None:
            c.items[:] = self.cell(s).items
            self.pynote(h)
            return
        self.write(h.loc, self.read(s.loc))

    # dict
    def mdict_keys(self, h):
        return self.seq_of(h)

    def mdict_values(self, h):
        c = self.cell(h)
        if c is not None:
            return self.items_seq(tuple(v for _, v in c.items))
        t, loc = self.loc_t(h.loc), h.loc
        terms = self.read(loc)
        return Seq(clen(terms[0]), lambda i: self.load(t.v, ElemLoc(loc, sel(terms[2], iz(i)), t.v)), ('values', loc))

    def mdict_items(self, h):
        c = self.cell(h)
        if c is not None:
            return self.items_seq(tuple((k, v) for k, v in c.items))
        t, loc = self.loc_t(h.loc), h.loc
        terms = self.read(loc)
        return Seq(clen(terms[0]), lambda i: (self.key_val(sel(terms[2], iz(i)), t.k),
                                              self.load(t.v, ElemLoc(loc, sel(terms[2], iz(i)), t.v))), ('items', loc))

    def mdict_get(self, h, k, d=None):
        c = self.cell(h)
        if c is not None:
            return self.pydict_get(c, k, d)
        t = self.loc_t(h.loc)
        terms = self.read(h.loc)
        kt = self.key_term(k, t.k)
        has = as_bool(sel(terms[1], kt))
        v = self.load(t.v, ElemLoc(h.loc, kt, t.v))
        if isinstance(has, bool):
            return v if has else d
        if is_container(t.v) and not self.spec:
            return v if self.branch(has) else d
        return self.merge(has, v, d)

    def mdict_update(self, h, *a, **kw):
        self.method_dict_update(h, a, kw)

    def method_dict_update(self, h, args, kw):
        for a in args:
            a = self.unopt(a)
            if isinstance(a, Handle) and (self.cell(a).kind if self.cell(a) else None) == 'dict':
                for k, v in list(self.cell(a).items):
                    self.setitem(h, k, v)
                continue
            if isinstance(a, Handle) and isinstance(self.loc_t(a.loc), TDict):
                c = self.cell(h)
                at = self.loc_t(a.loc)
                if c is not None:
                    t = self.loc_t(h.loc)
                    self.promote(h, TDict(self.join(t.k, at.k), self.join(t.v, at.v)))
                t = self.loc_t(h.loc)
                if t != at:
                    raise Unsupported('dict update types')
                x, y = self.read(h.loc), self.read(a.loc)
                ks = key_sort(t.k)
                k = z3.Const('up%d' % self.cnt, ks)
                i = z3.Const('ui%d' % self.cnt, z3.IntSort())
                self.cnt += 1
                out = [self.fresh('un', z3.IntSort()), self.fresh('udom', z3.ArraySort(ks, z3.BoolSort())),
                       self.fresh('uk', z3.ArraySort(z3.IntSort(), ks)), self.fresh('up', z3.ArraySort(ks, z3.IntSort()))]
                vals = [z3.Lambda([k], z3.If(sel(y[1], k), sel(q, k), sel(p, k))) for p, q in zip(x[4:], y[4:])]
                self.assume(z3.ForAll([k], sel(out[1], k) == z3.Or(sel(x[1], k), sel(y[1], k)), patterns=[sel(out[1], k)]))
                self.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < x[0]), sel(out[2], i) == sel(x[2], i)),
                                      patterns=[sel(out[2], i)]))
                self.assume(out[0] >= x[0])
                self.assume(self.wf(t, out + vals))
                self.write(h.loc, out + vals)
                continue
            s = self.seq_of(a)
            if not isinstance(s.n, int):
                raise Unsupported("dict update")
            for i in range(s.n):
                k, v = self.pair(s.get(i))
                self.setitem(h, k, v)
        for k, v in kw.items():
            self.setitem(h, k, v)

    def mdict_pop(self, h, k, d=UNDEF):
        c = self.cell(h)
        if c is not None and concrete_key(k) and all(concrete_key(x) for x, _ in c.items):
            for j, (x, v) in enumerate(c.items):
                if self.eq(x, k) is True:
                    del c.items[j]
                    self.pynote(h)
                    return v
            if d is not UNDEF:
                return d
            self.py_error('KeyError', 'key-present')
        if c is not None:
            self.promote(h, self.loc_t(h.loc))
        t = self.loc_t(h.loc)
        terms = self.read(h.loc)
        kt = self.key_term(k, t.k)
        has = as_bool(sel(terms[1], kt))
        if d is UNDEF:
            self.py_check(has, 'KeyError', 'key-present')
        elif not self.branch(has):
            return d
        v = self.unflatten(t.v, [sel(a, kt) for a in terms[4:]])
        self.write(h.loc, self.dict_remove(t, terms, kt))
        return v

    def mdict_setdefault(self, h, k, d=None):
        c = self.contains(k, h)
        if not self.branch(c):
            self.setitem(h, k, d)
        return self.getitem(h, k)

    def mdict_copy(self, h):
        return self.copy_of(h)

    # set
    def mset_add(self, h, v):
        self.set_add(h, v)

    def mset_update(self, h, v):
        s = self.seq_of(v)
        if isinstance(s.n, int):
            for i in range(s.n):
                self.set_add(h, s.get(i))
            return
        r = self.set_op(ast.BitOr(), h, v)
        self.write(h.loc, self.read(r.loc))

    def mset_copy(self, h):
        return self.copy_of(h)

    def mset_discard(self, h, v):
        c = self.cell(h)
        if c is not None and concrete_key(v):
            c.items[:] = [x for x in c.items if self.eq(x, v) is not True]
            self.pynote(h)
            return
        t = self.loc_t(h.loc)
        terms = self.read(h.loc)
        k = self.key_term(v, t.k)
        if self.branch(sel(terms[1], k)):
            self.write(h.loc, self.dict_remove(t, terms, k))

    def mset_union(self, h, v):
        return self.set_op(ast.BitOr(), h, v)

    def mset_difference(self, h, v):
        return self.set_op(ast.Sub(), h, v)

    def mset_intersection(self, h, v):
        return self.set_op(ast.BitAnd(), h, v)

    # str
    def str_method(self, v, name, args, kw):
        if isinstance(v, str) and all(isinstance(a, (str, int)) for a in args) and not kw and name != 'join':
            r = getattr(v, name)(*args)
            return self.new_py('list', r) if isinstance(r, list) else r
        vz = self.scalar(v, Str)
        if name in ('startswith', 'endswith') and args[0] == '':
            return True
        if name in ('startswith', 'endswith'):
            return SV(Bool, z3.Function('str_' + name, StrSort, StrSort, z3.BoolSort())(vz, self.scalar(args[0], Str)))
        if name == 'join':
            s = self.seq_of(args[0])
            if isinstance(s.n, int):
                r = ''
                for i in range(s.n):
                    r = s.get(i) if i == 0 else self.concat(self.concat(r, v), s.get(i))
                return r
            arr = self.seq_terms(s, TList(Str))
            z = z3.Function('str_join', StrSort, z3.IntSort(), z3.ArraySort(z3.IntSort(), StrSort), StrSort)
            q = z3.Const('join.i', z3.IntSort())
            clipped = z3.Lambda([q], z3.If(z3.And(0 <= q, q < iz(arr[0])), sel(arr[1], q), z3.Const('str:none', StrSort)))
            return SV(Str, z(vz, arr[0], clipped))
        if name in ('replace', 'strip', 'lower', 'upper', 'rstrip', 'lstrip', 'format', 'removeprefix', 'removesuffix'):
            try:
                az = [self.scalar(a, Str) for a in args]
            except Unsupported:
                return SV(Str, self.fresh('text', StrSort))
            return SV(Str, z3.Function('str_%s%d' % (name, len(az)), *([StrSort] * (len(az) + 2)))(vz, *az))
        if name in ('find', 'count', 'index', 'rfind'):
            return SV(Int, z3.Function('str_' + name, StrSort, StrSort, z3.IntSort())(vz, self.scalar(args[0], Str)))
        if name == 'split':
            d = self.scalar(args[0], Str) if args else str_lit(' ')
            t = TList(Str)
            n = z3.Function('str_split_n', StrSort, StrSort, z3.IntSort())(vz, d)
            a = z3.Function('str_split', StrSort, StrSort, z3.ArraySort(z3.IntSort(), StrSort))(vz, d)
            if not has_qvar(n):
                self.assume(n >= 1)
            return Handle(ConstLoc(t, [n, a])) if self.spec else self.new_cell(t, [n, a])
        if name in ('isnumeric', 'isdigit', 'isidentifier'):
            return SV(Bool, z3.Function('str_' + name, StrSort, z3.BoolSort())(vz))
        raise Unsupported('str.%s' % name)

    def arr_method(self, v, name, args, kw):
        if name == 'copy':
            return self.settle(self.as_lazy(v))
        if name in ('any', 'all'):
            return self.quant(v, name)
        if name == 'sum':
            return self.bi_sum(v)
        if name == 'min':
            return self.bi_min(v)
        if name == 'max':
            return self.bi_max(v)
        if name == 'tolist':
            return self.list_from_seq(v)
        if name == 'astype':
            return self.np_array(v, args[0])
        if name == 'fill':
            return self.arr_assign_all(v, args[0])
        if name == 'reshape':
            return self.np_reshape(v, args[0] if len(args) == 1 else tuple(args))
        if name == 'item' and not args:
            return self.lazy_index(self.as_lazy(v), [('i', z3.IntVal(0))] * len(self.arr_shape(v)))
        raise Unsupported('array.%s' % name)

    # ------------------------------------------------------------ builtins
    def builtins(self):
        if not hasattr(self, '_bi'):
            self._bi = {}
            for n in dir(self):
                if n.startswith('bi_'):
                    self._bi[n[3:].rstrip('_')] = Builtin(n[3:].rstrip('_'), getattr(self, n))
        return self._bi

    def bi_bytes(self, *a):
        raise Unsupported('bytes()')

    def bi_complex(self, *a):
        raise Unsupported('complex()')

    def bi_len(self, v):
        v = self.unopt(v)
        if isinstance(v, (str,)):
            return len(v)
        if isinstance(v, tuple):
            return len(v)
        if isinstance(v, Seq):
            return v.n if isinstance(v.n, int) else mk(Int, v.n)
        if isinstance(v, Handle):
            c = self.cell(v)
            if c is not None:
                return len(c.items)
            return mk(Int, z3.simplify(self.read(v.loc)[0]))
        if self.is_arr(v):
            n = self.arr_shape(v)[0]
            return n if isinstance(n, int) else mk(Int, n)
        if isinstance(v, SV) and isinstance(v.t, TStr):
            return SV(Int, z3.Function('str_len', StrSort, z3.IntSort())(v.z))
        m = self.getattr_or_none(v, '__len__') if isinstance(v, (ObjV, SV)) else None
        if m is not None:
            return self.call(m, [], {})
        raise Unsupported('len of %r' % (v,))

    def bi_range(self, *a):
        a = [self.unopt(x) for x in a]
        step = a[2] if len(a) == 3 else 1
        lo, hi = (0, a[0]) if len(a) == 1 else (a[0], a[1])
        if all(isinstance(x, int) for x in (lo, hi, step)):
            r = range(lo, hi, step)
            return self.items_seq(tuple(r)) if len(r) <= 10000 else Seq(len(r), lambda i: mk(Int, lo + iz(i) * step))
        if not isinstance(step, int) or step not in (1, -1):
            raise Unsupported('range step')
        lz, hz = self.scalar(lo, Int), self.scalar(hi, Int)
        if step == 1:
            n = z3.simplify(hz - lz)
            get = (lambda i: mk(Int, iz(i))) if isinstance(lo, int) and lo == 0 else \
                (lambda i: mk(Int, z3.simplify(lz + iz(i))))
        else:
            n = z3.simplify(lz - hz)
            get = lambda i: mk(Int, z3.simplify(lz - iz(i)))
        if not z3.is_int_value(n) and self.feasible(n < 0):
            n = z3.If(n > 0, n, z3.IntVal(0))
        n = clen(n)
        return Seq(max(n, 0) if isinstance(n, int) else n, get, ('range', lz, hz) if step == 1 else None)

    def bi_enumerate(self, v, start=0):
        s = self.seq_of(v)
        return Seq(s.n, lambda i: (i if isinstance(i, int) and start == 0 else
                                   self.binop(ast.Add(), mk(Int, iz(i)), start), s.get(i)), s.src)

    def bi_zip(self, *a, strict=False):
        if len(a) == 1 and isinstance(a[0], tuple) and len(a[0]) == 2 and a[0][0] == '*':
            s = self.seq_of(a[0][1])
            if isinstance(s.n, int):
                a = [s.get(i) for i in range(s.n)]
            else:
                e = self.seq_type(s)
                if not isinstance(e, TTuple):
                    raise Unsupported('zip(*)')
                return self.items_seq(tuple(Seq(s.n, lambda i, j=j: s.get(i)[j]) for j in range(len(e.ts))))
        ss = [self.seq_of(x) for x in a]
        if not ss:
            return self.items_seq(())
        ns = [s.n for s in ss]
        if all(isinstance(n, int) for n in ns):
            n = min(ns)
        else:
            n = iz(ns[0])
            for m in ns[1:]:
                m = iz(m)
                if n.eq(m):
                    continue
                if not self.feasible(n != m):
                    continue
                n = z3.If(n <= m, n, m)
            n = clen(n)
        return Seq(n, lambda i: tuple(s.get(i) for s in ss))

    def bi_map(self, f, *a):
        ss = [self.seq_of(x) for x in a]
        z = self.bi_zip(*a) if len(a) > 1 else None
        n = z.n if z else ss[0].n
        if isinstance(n, int):
            return self.items_seq(tuple(self.call(f, [s.get(i) for s in ss], {}) for i in range(n)))
        if self.spec:
            return Seq(n, lambda i: self.call(f, [s.get(i) for s in ss], {}))
        i = self.fresh('gi', z3.IntSort())
        with self.binder(i, z3.And(0 <= i, i < n)):
            v = self.merged(lambda: self.call(f, [s.get(i) for s in ss], {}))
            return self.seq_template(n, i, v)

    def bi_filter(self, f, a):
        s = self.seq_of(a)
        if isinstance(s.n, int):
            out = []
            for i in range(s.n):
                x = s.get(i)
                c = self.truth(self.call(f, [x], {}) if f is not None else x)
                if self.branch(c):
                    out.append(x)
            return self.items_seq(tuple(out))
        return self.filter_seq(s, lambda i: self.truth(self.merged(
            lambda: self.to_bool(self.truth(self.call(f, [s.get(i)], {}))))))

    def bi_list(self, v=()):
        return self.list_from_seq(v)

    def bi_tuple(self, v=()):
        s = self.seq_of(v)
        if not isinstance(s.n, int):
            return self.list_from_seq(s)
        r = tuple(s.get(i) for i in range(s.n))
        return r

    def bi_set(self, v=()):
        if isinstance(v, tuple) and not v:
            return self.new_py('set', [])
        return self.set_from_seq(v)

    def bi_dict(self, *a, **kw):
        if a:
            v = a[0]
            if isinstance(v, Handle) and (self.cell(v).kind == 'dict' if self.cell(v) else
                                          isinstance(self.loc_t(v.loc), TDict)):
                h = self.copy_of(v)
            else:
                h = self.dict_from_seq(v)
        else:
            h = self.new_py('dict', [])
        if '**' in kw:
            self.method_dict_update(h, [kw.pop('**')], {})
        for k, x in kw.items():
            self.setitem(h, k, x)
        return h

    def bi_str(self, v=''):
        return self.to_str(v)

    def bi_repr(self, v):
        return self.to_str(v)

    def conv(self, t, x):
        x = self.unopt(x)
        if isinstance(x, LazyArr) and not x.shape:
            x = x.fn()
        if isinstance(t, TInt):
            if isinstance(x, (bool, int)):
                return int(x)
            if isinstance(x, float):
                return int(x)
            if isinstance(x, SV) and isinstance(x.t, TReal):
                z = x.z
                return mk(Int, z3.If(z >= 0, z3.ToInt(z), -z3.ToInt(-z)))
            return mk(Int, self.scalar(x, Int))
        if isinstance(t, TReal):
            if isinstance(x, (int, float)):
                return float(x)
            return SV(Real, self.scalar(x, Real))
        if isinstance(t, TBool):
            return self.to_bool(self.truth(x))
        raise Unsupported('conversion')

    def bi_int(self, x=0):
        return self.conv(Int, x)

    def bi_float(self, x=0.0):
        if isinstance(x, SV) and isinstance(x.t, TAny):
            A = AnySort
            num = z3.Or(A.is_AInt(x.z), A.is_AReal(x.z), A.is_ABool(x.z))
            other = z3.Function('any_as_float', AnySort, z3.RealSort())(x.z)
            r = z3.If(A.is_AInt(x.z), z3.ToReal(A.a_int(x.z)),
                      z3.If(A.is_AReal(x.z), A.a_real(x.z), z3.If(A.is_ABool(x.z), z3.If(A.a_bool(x.z), z3.RealVal(1), z3.RealVal(0)), other)))
            if not self.spec:
                ok = z3.Or(num, z3.Function('any_floatable', AnySort, z3.BoolSort())(x.z))
                isstr = A.is_AStr(x.z)
                self.py_check(z3.Or(ok, z3.Not(isstr)), 'ValueError', 'text-is-a-number')
                self.py_check(z3.Or(ok, isstr), 'TypeError', 'float-of-a-number')
            return SV(Real, r)
        return self.conv(Real, x)

    def bi_bool(self, x=False):
        return self.to_bool(as_bool(self.truth(x)))

    def bi_abs(self, x):
        if isinstance(x, (int, float)):
            return abs(x)
        t = self.type_of(x)
        z = self.scalar(x, t)
        return mk(t, z3.If(z >= 0, z, -z))

    def extremum(self, a, less, kw):
        if kw:
            raise Unsupported('min/max key')
        if len(a) == 1:
            s = self.seq_of(a[0])
            if not isinstance(s.n, int):
                self.py_check(as_bool(s.n > 0), 'ValueError', 'nonempty')
                t = self.seq_type(s)
                m = self.fresh('ext', t.sort)
                w = self.fresh('extw', z3.IntSort())
                i = z3.Const('ex%d' % self.cnt, z3.IntSort())
                self.cnt += 1
                sp, self.spec = self.spec, self.spec + 1
                try:
                    z = self.scalar(s.get(i), t)
                    self.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < s.n), m <= z if less else m >= z)))
                    self.assume(z3.And(0 <= w, w < s.n, m == self.scalar(s.get(w), t)))
                finally:
                    self.spec = sp
                return mk(t, m)
            a = [s.get(i) for i in range(s.n)]
            if not a:
                self.py_error('ValueError', 'nonempty')
        a = [self.unopt(x) for x in a]
        if all(isinstance(x, (int, float)) for x in a):
            return min(a) if less else max(a)
        t = None
        for x in a:
            t = self.join(t, self.type_of(x))
        z = self.scalar(a[0], t)
        for x in a[1:]:
            y = self.scalar(x, t)
            z = z3.If(y < z, y, z) if less else z3.If(y > z, y, z)
        return mk(t, z)

    def bi_min(self, *a, **kw):
        return self.extremum(a, True, kw)

    def bi_max(self, *a, **kw):
        return self.extremum(a, False, kw)

    def bi_sum(self, v, start=0):
        s = self.seq_of(v)
        if isinstance(s.n, int):
            r = start
            for i in range(s.n):
                r = self.binop(ast.Add(), r, s.get(i))
            return r
        t = self.seq_type(s)
        if isinstance(t, TBool):
            t = Int
        arr = self.seq_terms(s, TList(t))[1]
        q = z3.Const('sum.i', z3.IntSort())
        zero = z3.IntVal(0) if t.sort == z3.IntSort() else z3.RealVal(0)
        arr = z3.Lambda([q], z3.If(z3.And(0 <= q, q < iz(s.n)), sel(arr, q), zero))
        f = self.reg.sum_fn(t)
        n = iz(s.n)
        if not has_qvar(arr) and not has_qvar(n):
            # true of any two sums: equal where it matters implies equal (k is a position where they differ, if any)
            for a2, n2, t2 in list(getattr(self, "sums", ())):
                if t2 == t and not (a2.eq(arr) and n2.eq(n)):
                    k = self.fresh('sd', z3.IntSort())
                    self.assume(z3.Implies(z3.And(n == n2, z3.Implies(z3.And(0 <= k, k < n), sel(arr, k) == sel(a2, k))),
                                           f(arr, n) == f(a2, n2)))
            self.__dict__.setdefault("sums", []).append((arr, n, t))
        r = mk(t, f(arr, n))
        return self.binop(ast.Add(), start, r) if not (isinstance(start, int) and start == 0) else r

    def bi_any(self, v):
        return self.anyall(v, 'any')

    def bi_all(self, v):
        return self.anyall(v, 'all')

    def anyall(self, v, kind):
        s = self.seq_of(v)
        if isinstance(s.n, int):
            cs = [self.truth(s.get(i)) for i in range(s.n)]
            return self.to_bool(as_bool((Or_ if kind == 'any' else And_)(*cs))) if cs else kind == 'all'
        i = self.bvar('qi')
        g = z3.And(0 <= i, i < s.n)
        if self.spec:
            c = b(self.truth(s.get(i)))
        else:
            with self.binder(i, g):
                c = b(self.truth(s.get(i)))
        return SV(Bool, z3.Exists([i], z3.And(g, c)) if kind == 'any' else z3.ForAll([i], z3.Implies(g, c)))

    def bi_sorted(self, v, key=None, reverse=False):
        s = self.seq_of(v)
        if isinstance(s.n, int):
            items = [s.get(i) for i in range(s.n)]
            if all(isinstance(x, (int, str, float)) for x in items) and key is None:
                return self.new_py('list', sorted(items, reverse=bool(reverse)))
            if len(items) <= 1:
                return self.new_py('list', items)
        t = self.seq_type(s)
        if key is not None:
            raise Unsupported('sort key')
        # permutation facts and order (numbers only)
        I = z3.IntSort()
        src = self.seq_terms(s, TList(t))
        n = src[0]
        perm = self.fresh('perm', z3.ArraySort(I, I))
        inv = self.fresh('pinv', z3.ArraySort(I, I))
        i, j = z3.Ints('pi pj')
        out = [n] + [z3.Lambda([i], sel(a, perm[i])) for a in src[1:]]
        self.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), z3.And(0 <= perm[i], perm[i] < n,
                                                                          inv[perm[i]] == i)), patterns=[perm[i]]))
        self.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), z3.And(0 <= inv[i], inv[i] < n,
                                                                          perm[inv[i]] == i)), patterns=[inv[i]]))
        if isinstance(t, (TInt, TReal)):
            x, y = sel(out[1], i), sel(out[1], j)
            self.assume(z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < j, j < n), x >= y if reverse else x <= y)))
        tt = TList(t)
        return Handle(ConstLoc(tt, out)) if self.spec else self.new_cell(tt, out)

    def bi_reversed(self, v):
        s = self.seq_of(v)
        if isinstance(s.n, int):
            return Seq(s.n, lambda i: s.get(s.n - 1 - i))
        return Seq(s.n, lambda i: s.get(z3.simplify(s.n - 1 - iz(i))))

    def bi_iter(self, v):
        return self.seq_of(v)

    def bi_next(self, v, d=UNDEF):
        s = self.seq_of(v)
        if isinstance(s.n, int):
            if s.n:
                return s.get(0)
            if d is not UNDEF:
                return d
            self.py_error('StopIteration', 'next')
        if d is UNDEF:
            self.py_check(as_bool(s.n > 0), 'StopIteration', 'next')
            return s.get(z3.IntVal(0))
        return s.get(z3.IntVal(0)) if self.branch(s.n > 0) else d

    def bi_print(self, *a, **kw):
        return None

    def bi_id(self, v):
        if isinstance(v, ObjV):
            return v.addr
        if isinstance(v, SV) and isinstance(v.t, TRef):
            return SV(Int, v.z)
        raise Unsupported('id')

    def bi_callable(self, v):
        return isinstance(v, (FuncV, ClassV, Builtin, Ext, ExtObj, TFun, Method))

    def bi_type(self, v, *a):
        if a:
            raise Unsupported('dynamic class')
        if isinstance(v, SV) and isinstance(v.t, TRef):     # possibly of a subclass
            return SV(TAny(), z3.Function('type_of_' + v.t.cls, z3.IntSort(), AnySort)(v.z))
        cv = self.obj_class(v)
        if cv is not None:
            return cv
        t = self.type_of(v)
        n = {TInt: 'int', TReal: 'float', TStr: 'str', TBool: 'bool', TList: 'list', TDict: 'dict', TSet: 'set',
             TTuple: 'tuple'}.get(type(t))
        if n:
            return self.builtins()[n]
        if isinstance(v, ObjV) and isinstance(self.st.objs[v.addr][0], str) and \
                self.st.objs[v.addr][0].startswith('ast.'):
            return Ext(self.st.objs[v.addr][0])
        raise Unsupported('type of %r' % (v,))

    def bi_getattr(self, o, n, d=UNDEF):
        if not isinstance(n, str):
            raise Unsupported('computed attribute name')
        if d is UNDEF:
            return self.getattr(o, n)
        return self.getattr(o, n) if self.bi_hasattr(o, n) is True else d

    def bi_setattr(self, o, n, v):
        if not isinstance(n, str):
            h = getattr(self.reg, 'dyn_setattr', None)
            if h is not None:
                return h(self, o, n, v)
            raise Unsupported('computed attribute name')
        self.setattr(o, n, v)

    def bi_hasattr(self, o, n):
        if isinstance(o, ObjV):
            cls, f = self.st.objs[o.addr]
            if n in f:
                return True
            cv = self.obj_class(o)
            return cv is not None and self.find_method(cv, n) is not None
        if isinstance(o, SV) and isinstance(o.t, TRef):
            rc = self.reg.refs[o.t.cls]
            if n in rc.fields or n in rc.consts:
                return True
            cv = self.obj_class(o)
            if cv is not None and self.find_method(cv, n) is not None:
                return True
            k = 'hasattr_%s_%s' % (o.t.cls, n)
            return SV(Bool, z3.Function(k, z3.IntSort(), z3.BoolSort())(o.z))
        if isinstance(o, SV) and isinstance(o.t, TNode):
            return SV(Bool, z3.Function('hasattr_node_%s' % n, NodeSort, z3.BoolSort())(o.z))
        if o is None or isinstance(o, (int, str, float)):
            return False
        raise Unsupported('hasattr')

    def bi_issubclass(self, a, c):
        if isinstance(a, ClassV) and isinstance(c, ClassV):
            return any(x is c.node for _, x in self.prog.mro(a.mod, a.node))
        raise Unsupported('issubclass')

    def bi_isinstance(self, v, cs):
        if isinstance(cs, tuple):
            out = []
            for c in cs:
                r = self.bi_isinstance(v, c)
                if r is True:
                    return True
                out.append(b(self.truth(r)))
            return self.to_bool(as_bool(Or_(*out)))
        c = cs
        if isinstance(v, OptV):
            r = self.bi_isinstance(v.v, c)
            return self.to_bool(as_bool(And_(Not_(b(v.none)), b(self.truth(r)))))
        if isinstance(c, Builtin):
            want = c.name
            if isinstance(v, SV) and isinstance(v.t, TAny):
                A = AnySort
                f = {'int': lambda z: z3.Or(A.is_AInt(z), A.is_ABool(z)), 'float': A.is_AReal, 'str': A.is_AStr,
                     'bool': A.is_ABool}.get(want)
                if f is None:
                    if want in ('list', 'dict', 'tuple', 'set'):
                        return False
                    return SV(Bool, z3.And(A.is_AOther(v.z), z3.Function('any_isinstance_' + want, AnySort, z3.BoolSort())(v.z)))
                return self.to_bool(as_bool(f(v.z)))
            if isinstance(v, SV) and isinstance(v.t, TNode):
                return SV(Bool, z3.Function('kind', NodeSort, z3.IntSort())(v.z) == self.reg.clsid('py.' + want))
            if isinstance(v, Seq):
                return want in ('list', 'tuple')
            t = self.type_of(v)
            names = {TInt: ('int',), TReal: ('float',), TStr: ('str',), TBool: ('bool', 'int'), TList: ('list',),
                     TDict: ('dict',), TSet: ('set',), TTuple: ('tuple',), TEnum: ('int',) if isinstance(t, TEnum) and
                     t.cls in self.reg.int_enums else ()}.get(type(t), ())
            return want in names
        if isinstance(c, ClassV):
            cv = self.obj_class(v)
            if cv is not None:
                if any(x is c.node for _, x in self.prog.mro(cv.mod, cv.node)):
                    return True
                if isinstance(v, SV) and isinstance(v.t, TRef) and \
                        any(x is cv.node for _, x in self.prog.mro(c.mod, c.node)):
                    return SV(Bool, z3.Function('isinstance_%s' % c.name, z3.IntSort(), z3.BoolSort())(v.z))
                return False
            if isinstance(v, SV) and isinstance(v.t, TAny):
                for n, q in self.reg.classes.items():
                    if q == '%s:%s' % (c.mod.name, c.name):
                        return self.to_bool(as_bool(z3.And(AnySort.is_ARef(v.z),
                                                           AnySort.a_cls(v.z) == self.reg.clsid(n))))
                return SV(Bool, z3.Function('any_isinstance_%s' % c.name, AnySort, z3.BoolSort())(v.z))
            if isinstance(v, SV) and isinstance(v.t, TNode):
                return SV(Bool, z3.Function('kind', NodeSort, z3.IntSort())(v.z) == self.reg.clsid(c.name))
            return False
        if isinstance(c, Ext):
            if isinstance(v, ObjV):
                cls = self.st.objs[v.addr][0]
                if isinstance(cls, str):
                    if cls == c.path:
                        return True
                    if cls.startswith('ast.') and c.path.startswith('ast.'):
                        return issubclass(getattr(ast, cls[4:]), getattr(ast, c.path[4:]))
                return False
            if isinstance(v, SV) and isinstance(v.t, TNode):
                return SV(Bool, z3.Function('kind', NodeSort, z3.IntSort())(v.z) == self.reg.clsid(c.path))
            if c.path.split('.')[-1] == 'ndarray':
                return self.is_arr(v)
            if isinstance(v, SV) and isinstance(v.t, TAny):
                return SV(Bool, z3.Function('any_isinstance_' + c.path, AnySort, z3.BoolSort())(v.z))
            if c.path in ('typing.Sequence', 'collections.abc.Sequence'):
                return isinstance(v, Seq) or isinstance(self.type_of(v), (TList, TStr, TTuple))
            return False
        if isinstance(c, SV) and isinstance(c.t, TAny):
            t = self.type_of(v)
            z = v.z if isinstance(v, SV) else None
            if z is not None and isinstance(t, TAny):
                return SV(Bool, z3.Function('app_isinstance_of', AnySort, AnySort, z3.BoolSort())(z, c.z))
        raise Unsupported('isinstance')

    def bi_zip_longest(self, *a, **k):
        raise Unsupported('zip_longest')


def has_ref(t):
    if isinstance(t, (TRef, TAny, TObj)):
        return isinstance(t, (TRef, TObj))
    return any(has_ref(x) for x in ([t.t] if isinstance(t, TOpt) else t.ts if isinstance(t, TTuple) else [t.e] if isinstance(t, (TList, TArr)) else
                                    [t.k] if isinstance(t, TSet) else [t.k, t.v] if isinstance(t, TDict) else []) if x is not None)

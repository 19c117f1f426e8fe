"""Contract registry, contract application, function verification."""
import ast
import re
import time

from .lib import *


class LoopSpec:
    def __init__(self, inv=(), index='_k', init=None, step=None, use_init=None, use_start=None, use_end=None,
                 use_break=None, decreases=None):
        self.inv, self.index, self.init, self.step = list(inv), index, init, step
        self.use_init, self.use_start, self.use_end, self.use_break, self.decreases = \
            use_init, use_start, use_end, use_break, decreases


def walk_in_order(n):
    yield n
    for c in ast.iter_child_nodes(n):
        if not isinstance(c, (ast.FunctionDef, ast.Lambda)):
            yield from walk_in_order(c)


def part_of(node, part):
    def find(pat):
        ms = [i for i, st in enumerate(node.body) if re.match(pat, ast.unparse(st))]
        if len(ms) != 1:
            raise Unsupported('the statement %r occurs %d times' % (pat, len(ms)))
        return ms[0]
    a = find(part[0]) if part[0] else 0
    b = find(part[1]) if part[1] else len(node.body)
    if b <= a:
        raise Unsupported('empty part')
    return node.body[a:b]


class Contract:
    """requires/ensures: list of text or (label, text); raises: (exc, condition text, 'iff'|'may');
    modifies: list of paths"""

    def __init__(self, qual, params=None, requires=(), ensures=(), raises=(), modifies=(), loops=(), ret=None,
                 returns=None, ghosts=None, locals=None, inline=False, trusted=None, props=(), short=None,
                 use_pre=None, use_post=None, names=None, self_t=None, raise_ensures=(), effect=None, skip=False,
                 frame=True, setup=None, post=None, hints=None, when=None, part=None, lexical=None):
        self.lexical = bool(part) if lexical is None else lexical    # loops numbered as written, not as met
        self.when = when
        self.part = part     # (first, last): patterns of the top level statements the contract covers; last excluded, None: to the end
        self.qual = qual
        self.params = dict(params or {})
        self.requires, self.ensures = labelled(requires, 'pre'), labelled(ensures, 'post')
        self.raises = [r if len(r) == 3 else (r[0], r[1], 'iff') for r in raises]
        self.modifies, self.loops = list(modifies), list(loops)
        self.ret, self.returns = ret, returns
        self.ghosts = dict(ghosts or {})
        self.locals = dict(locals or {})
        self.inline, self.trusted = inline, trusted
        self.props = props
        self.short = short or qual.split(':')[-1]
        self.use_pre, self.use_post = use_pre, use_post
        self.names = names
        self.loop_perm = None
        self.raise_ensures = labelled(raise_ensures, 'exc-post')
        self.effect = effect
        self.skip = skip
        self.frame = frame
        self.setup, self.post = setup, post
        self.hints, self.hints_done = dict(hints or {}), set()


def labelled(xs, p):
    return [x if isinstance(x, tuple) else ('%s%d' % (p, i + 1), x) for i, x in enumerate(xs)]


class RefClass:
    def __init__(self, fields, consts=None, qual=None, construct=True, open=False):
        self.fields, self.consts, self.qual, self.construct, self.open = fields, consts or {}, qual, construct, open


class SpecFn:
    def __init__(self, name, params, ret, body, rec=False):
        self.name, self.params, self.ret, self.body, self.rec = name, params, ret, body, rec


class Lemma:
    def __init__(self, name, params, requires=(), ensures=(), induct=None, hints=None, pre=None, trusted=False,
                 cases=None):
        self.name, self.params = name, params
        self.requires, self.ensures = list(requires), list(ensures)
        self.induct, self.hints, self.pre, self.trusted = induct, hints, pre, trusted
        self.cases = cases


class Registry:
    def __init__(self):
        self.refs, self.enums, self.int_enums, self.classes = {}, {}, set(), {}
        self.globals, self.externals, self.node_axioms, self.node_attrs = {}, {}, {}, {}
        self.opaque_call = None
        self.contracts, self.fields, self.specfns, self.lemmas = {}, {}, {}, {}
        self._cls, self._parsed = {}, {}
        self.recdefs = {}
        self.axioms = []
        self.dyn_setattr = None
        self.inline_only = set()
        self.ext_enums = {}

    def ext_enum(self, path, file):
        """integer enumeration of an installed dependency, read from its source"""
        name = path.split('.')[-1]
        with open(file) as f:
            tree = ast.parse(f.read())
        cls = [n for n in tree.body if isinstance(n, ast.ClassDef) and n.name == name][0]
        self.enums[name] = {t.targets[0].id: ast.literal_eval(t.value) for t in cls.body if isinstance(t, ast.Assign)}
        self.int_enums.add(name)
        self.ext_enums[path] = name

    def clsid(self, name):
        if name not in self._cls:
            self._cls[name] = len(self._cls) + 1
        return self._cls[name]

    def contract(self, *a, **k):
        c = Contract(*a, **k)
        self.contracts[c.qual] = c
        return c

    def external(self, path, **k):
        c = Contract('ext:' + path, trusted=True, short=path, **k)
        self.externals[path] = c
        return c

    def contract_for(self, qual):
        return self.contracts.get(qual)

    def locals_for(self, qual):
        c = self.contracts.get(qual)
        return c.locals if c else {}

    def field_t(self, cls, field):
        return self.fields.get((cls, field))

    def fn(self, name, params, ret, body, rec=False):
        self.specfns[name] = SpecFn(name, params, ret, body, rec)

    def lemma(self, name, params, **k):
        self.lemmas[name] = Lemma(name, params, **k)

    def parse(self, text):
        if text not in self._parsed:
            self._parsed[text] = ast.parse(text.strip().replace('\n', ' '), mode='eval').body
        return self._parsed[text]

    def check_lemma_only(self, e):
        """an assumed ghost fact must be built from proved lemmas only"""
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name):
            if e.func.id in self.lemmas:
                return
            if e.func.id in ('all', 'forall', 'implies'):
                for a in e.args:
                    if isinstance(a, ast.GeneratorExp):
                        return self.check_lemma_only(a.elt)
                    if isinstance(a, ast.Lambda):
                        return self.check_lemma_only(a.body)
                if e.func.id == 'implies':
                    return self.check_lemma_only(e.args[1])
        raise Unsupported('only lemmas may be used')

    def sum_fn(self, t):
        name = 'sum_%s' % t.sort.name()
        f, _ = self.rec_fn(name, [z3.ArraySort(z3.IntSort(), t.sort), z3.IntSort()], t.sort)
        if name not in self.recdefs:
            def ax(lim):
                a = z3.Const('a', z3.ArraySort(z3.IntSort(), t.sort))
                n = z3.Const('n', z3.IntSort())
                zero = z3.IntVal(0) if t.sort == z3.IntSort() else z3.RealVal(0)
                return [a, n], z3.If(n <= 0, zero, lim(a, n - 1) + a[n - 1])
            self.recdefs[name] = ax
        return f

    def rec_fn(self, name, doms, ret):
        return z3.Function('rec:' + name, *doms, ret), z3.Function('lim:' + name, *doms, ret)


class Verifier(Lib):
    # ------------------------------------------------------------ specification forms
    def lookup(self, name):
        try:
            return super().lookup(name)
        except Unsupported:
            if self.spec and name in self.reg.specfns and not self.reg.specfns[name].params:
                return self.spec_fn(self.reg.specfns[name], [])
            raise

    def spec_form(self, e):
        n = e.func.id
        if n in ('all', 'any') and len(e.args) == 1 and isinstance(e.args[0], ast.GeneratorExp):
            return (self.spec_quant(e.args[0], n),)
        if n in ('forall', 'exists'):
            return (self.spec_forall(e, n),)
        if n == 'implies':
            c = self.truth(self.ev(e.args[0]))
            if c is False:
                return (True,)
            d = self.truth(self.ev(e.args[1]))
            return (self.to_bool(as_bool(Implies_(c, d))),)
        if n == 'iff':
            c, d = self.truth(self.ev(e.args[0])), self.truth(self.ev(e.args[1]))
            return (self.to_bool(as_bool(b(c) == b(d))),)
        if n == 'old':
            return (self.in_old(lambda: self.snapshot(self.ev(e.args[0]))),)
        if n == 'snap':
            return (self.snapshot(self.ev(e.args[0])),)
        if n == 'real':
            return (self.conv(Real, self.ev(e.args[0])),)
        if n == 'trunc':
            return (SV(Int, z3.ToInt(self.scalar(self.ev(e.args[0]), Real))),)
        if n == 'same':
            x, y = self.ev(e.args[0]), self.ev(e.args[1])
            if self.is_arr(x) and self.is_arr(y):
                lx, ly = self.as_lazy(x), self.as_lazy(y)
                if len(lx.shape) != 1 or len(ly.shape) != 1:
                    raise Unsupported('same of tables')
                k = z3.Int(self.uniq('sm')) if hasattr(self, 'uniq') else z3.FreshInt('sm')
                d = lambda v: v if not isinstance(v, int) else z3.IntVal(v)
                g = z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < d(lx.shape[0])), self.scalar(lx.fn(k), lx.e) == self.scalar(ly.fn(k), lx.e)))
                return (self.to_bool(z3.And(d(lx.shape[0]) == d(ly.shape[0]), g)),)
            return (self.to_bool(as_bool(b(self.eq(self.ev(e.args[0]), self.ev(e.args[1]))))),)
        if n == 'isnone':
            v = self.ev(e.args[0])
            return (self.to_bool(as_bool(b(v.none if isinstance(v, OptV) else self.eq(v, None)))),)
        if n == 'some':
            v = self.ev(e.args[0])
            return (v.v if isinstance(v, OptV) else v,)
        if n == 'keyat':
            h = self.ev(e.args[0])
            t = self.loc_t(h.loc)
            return (self.key_val(sel(self.read(h.loc)[2], self.scalar(self.ev(e.args[1]), Int)), t.k),)
        if n == 'posof':
            h = self.ev(e.args[0])
            t = self.loc_t(h.loc)
            return (mk(Int, sel(self.read(h.loc)[3], self.key_term(self.ev(e.args[1]), t.k))),)
        if n == 'allocated':
            v = self.ev(e.args[0])
            z = self.scalar(v, v.t)
            return (self.to_bool(as_bool(z3.And(z >= 0, z < self.st.alloc[v.t.cls]))),)
        if n == 'alloc':
            return (mk(Int, self.st.alloc[e.args[0].id]),)
        if n == 'ref':
            return (SV(TRef(e.args[0].id), self.scalar(self.ev(e.args[1]), Int)),)
        if n == 'refid':
            v = self.ev(e.args[0])
            return (mk(Int, self.scalar(v, v.t)),)
        if n == 'setarr':       # functional array update
            a = self.as_lazy(self.ev(e.args[0]))
            i = self.scalar(self.ev(e.args[1]), Int)
            v = self.scalar(self.ev(e.args[2]), a.e)
            return (LazyArr(a.e, a.shape, lambda j: mk(a.e, z3.If(iz(j) == i, v, self.scalar(a.fn(j), a.e)))),)
        if n == 'app':          # uninterpreted function: app('name', ret, args...)
            args = [self.ev(x) for x in e.args[2:]]
            rt = {'Int': Int, 'Real': Real, 'Bool': Bool, 'Str': Str, 'Node': NodeT}[e.args[1].id]
            zs = [z for a in args for z in self.flatten(a, self.type_of(a))]
            return (mk(rt, z3.Function('app_' + e.args[0].value, *[z.sort() for z in zs], rt.sort)(*zs)),)
        h = getattr(self, 'spec_' + n, None)
        if h is not None and n in getattr(self.reg, 'spec_forms', ()):
            return (h(*[self.ev(a) for a in e.args]),)
        if n in self.reg.specfns:
            return (self.spec_fn(self.reg.specfns[n], [self.ev(a) for a in e.args]),)
        if n in self.reg.lemmas:
            return (self.lemma_inst(self.reg.lemmas[n], [self.ev(a) for a in e.args]),)
        return None

    def in_old(self, thunk):
        if self.old_st is None:
            raise Unsupported('old() without a pre-state')
        cur = self.st
        s = self.old_st.copy()
        for fid, env in cur.frames.items():
            if fid not in s.frames:
                s.frames[fid] = env
        s.pc = cur.pc
        self.st = s
        try:
            return thunk()
        finally:
            self.st = cur

    def snapshot(self, v):
        if isinstance(v, Handle):
            c = self.cell(v)
            if c is None:
                t = self.loc_t(v.loc)
                return Handle(ConstLoc(t, self.read(v.loc)))
            if c.kind == 'list':
                return tuple(self.snapshot(x) for x in c.items)
            t = self.pycell_t(c)
            return Handle(ConstLoc(t, self.flatten(v, t)))
        if isinstance(v, ArrView):
            return self.as_lazy(v)
        if isinstance(v, tuple):
            r = [self.snapshot(x) for x in v]
            return mknt(r, v.names) if isinstance(v, NT) else tuple(r)
        if isinstance(v, OptV):
            return OptV(v.none, self.snapshot(v.v), v.t)
        if isinstance(v, (int, float, str, bool, type(None), SV, EnumV, LazyArr, FuncV, ClassV, ObjV)):
            return v
        if isinstance(v, Seq):
            return v
        raise Unsupported('old value %r' % (v,))

    def qvar(self, name, sort):
        self.cnt += 1
        return z3.Const('%s?%d' % (name, self.cnt), sort)

    def spec_quant(self, g, kind):
        """all(P for x in range(a, b)) etc. as first-order quantifiers"""
        vs, guards = [], []
        fr = self.new_frame(self.frame.mod, self.frame, self.frame.qual, self.frame.cls)
        self.callstack.append(fr)
        try:
            return self.quant_levels(g, 0, kind, fr)
        finally:
            self.callstack.pop()

    def quant_levels(self, g, gi, kind, fr):
        isall = kind == 'all'
        if gi == len(g.generators):
            return self.to_bool(as_bool(self.truth(self.ev(g.elt))))
        gen = g.generators[gi]
        it = gen.iter
        v = guard = None
        if isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and it.func.id == 'range' and len(it.args) <= 2 \
                and isinstance(gen.target, ast.Name):
            a = [self.ev(x) for x in it.args]
            lo, hi = (0, a[0]) if len(a) == 1 else a
            if not (isinstance(lo, int) and isinstance(hi, int) and hi - lo <= 16):
                v = self.qvar(gen.target.id, z3.IntSort())
                guard = z3.And(self.scalar(lo, Int) <= v, v < self.scalar(hi, Int))
                self.st.frames[fr.fid][gen.target.id] = SV(Int, v)
        elif isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and it.func.id in ('ints', 'strs', 'nodes', 'reals'):
            so = {'ints': Int, 'strs': Str, 'nodes': NodeT, 'reals': Real}[it.func.id]
            v = self.qvar(gen.target.id, so.sort)
            guard = z3.BoolVal(True)
            self.st.frames[fr.fid][gen.target.id] = SV(so, v)
        elif isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and it.func.id == 'refs':
            cls = it.args[0].id
            v = self.qvar(gen.target.id, z3.IntSort())
            guard = z3.And(v >= 0, v < self.st.alloc[cls])
            self.st.frames[fr.fid][gen.target.id] = SV(TRef(cls), v)
        if v is None:
            src = self.ev(it)
            items = False
            if isinstance(src, Seq) and src.src and src.src[0] in ('items', 'keys', 'values') and \
                    isinstance(self.loc_t(src.src[1]), (TDict, TSet)) and not isinstance(src.n, int):
                how, loc = src.src
            elif isinstance(src, Handle) and self.cell(src) is None and isinstance(self.loc_t(src.loc), (TDict, TSet)):
                how, loc = 'keys', src.loc
            else:
                how = None
            if how:
                t = self.loc_t(loc)
                v = self.qvar('key', key_sort(t.k))
                guard = sel(self.read(loc)[1], v)
                kv = self.key_val(v, t.k)
                if how != 'keys':
                    val = self.load(t.v, ElemLoc(loc, v, t.v))
                self.assign_target(gen.target, kv if how == 'keys' else val if how == 'values' else (kv, val), local=fr)
            else:
                s = self.seq_of(src)
                if isinstance(s.n, int):
                    out = []
                    for i in range(s.n):
                        self.assign_target(gen.target, s.get(i), local=fr)
                        out.append(self.quant_ifs(g, gi, kind, fr))
                    return self.to_bool(as_bool((And_ if isall else Or_)(*[b(self.truth(x)) for x in out]))) if out \
                        else isall
                v = self.qvar('i', z3.IntSort())
                guard = z3.And(0 <= v, v < s.n)
                self.assign_target(gen.target, s.get(v), local=fr)
        body = b(self.truth(self.quant_ifs(g, gi, kind, fr)))
        if isall:
            return SV(Bool, z3.ForAll([v], z3.Implies(guard, body)))
        return SV(Bool, z3.Exists([v], z3.And(guard, body)))

    def quant_ifs(self, g, gi, kind, fr):
        conds = [self.truth(self.ev(c)) for c in g.generators[gi].ifs]
        r = self.truth(self.quant_levels(g, gi + 1, kind, fr))
        c = And_(*conds) if conds else True
        return self.to_bool(as_bool(Implies_(c, b(r)) if kind == 'all' else And_(c, r)))

    def spec_forall(self, e, kind):
        """forall(lambda i, j: body) over all integers; keyword T= for other sorts; pat=lambda for triggers"""
        lam = e.args[0]
        kw = {k.arg: k.value for k in e.keywords}
        ts = [Int] * len(lam.args.args)
        if 'T' in kw:
            names = kw['T'].value.split()
            m = {'Int': Int, 'Real': Real, 'Str': Str, 'Node': NodeT, 'Bool': Bool}
            ts = [m.get(x) or TRef(x) for x in names]
        fr = self.new_frame(self.frame.mod, self.frame, self.frame.qual, self.frame.cls)
        vs = []
        for a, t in zip(lam.args.args, ts):
            v = self.qvar(a.arg, t.sort)
            vs.append(v)
            self.st.frames[fr.fid][a.arg] = SV(t, v)
        self.callstack.append(fr)
        try:
            body = b(self.truth(self.ev(lam.body)))
            pats = []
            if 'pat' in kw:
                ps = kw['pat'].elts if isinstance(kw['pat'], (ast.List, ast.Tuple)) else [kw['pat']]
                terms = []
                for p in ps:
                    x = self.ev(p)
                    terms.append(self.flatten(x, self.type_of(x))[0])
                pats = [terms[0] if len(terms) == 1 else z3.MultiPattern(*terms)]
        finally:
            self.callstack.pop()
        for t, v in zip(ts, vs):
            if isinstance(t, TRef):
                g = z3.And(v >= 0, v < self.st.alloc[t.cls])
                body = z3.Implies(g, body) if kind == 'forall' else z3.And(g, body)
        q = z3.ForAll(vs, body, patterns=pats) if kind == 'forall' else z3.Exists(vs, body)
        return SV(Bool, q)

    def spec_fn(self, sf, args):
        if len(args) != len(sf.params):
            raise Unsupported('arguments of %s' % sf.name)
        if not sf.rec:
            env = {}
            for (n, t), a in zip(sf.params, args):
                env[n] = a
            fr = self.new_frame(None, None, 'spec:' + sf.name)
            self.st.frames[fr.fid].update(env)
            saved, self.spec_env = self.spec_env, {}
            self.callstack.append(fr)
            try:
                if callable(sf.body):
                    return sf.body(self, *args)
                return self.ev(self.reg.parse(sf.body))
            finally:
                self.callstack.pop()
                self.spec_env = saved
        doms = [s for _, t in sf.params for s in sorts(t)]
        f, lim = self.reg.rec_fn(sf.name, doms, sf.ret.sort)
        if sf.name not in self.reg.recdefs:
            def ax(limf, sf=sf):
                zs, env = [], {}
                for n, t in sf.params:
                    terms = [z3.Const('%s.%d' % (n, i), s) for i, s in enumerate(sorts(t))]
                    zs += terms
                    env[n] = self.unflatten_snap(t, terms)
                fr = self.new_frame(None, None, 'spec:' + sf.name)
                self.st.frames[fr.fid].update(env)
                saved, self.spec_env = self.spec_env, {}
                sp, self.spec = self.spec, self.spec + 1
                self.limited = getattr(self, 'limited', ()) + (sf.name,)
                self.callstack.append(fr)
                try:
                    v = self.ev(self.reg.parse(sf.body))
                    return zs, self.scalar(v, sf.ret)
                finally:
                    self.callstack.pop()
                    self.limited = self.limited[:-1]
                    self.spec_env, self.spec = saved, sp
            self.reg.recdefs[sf.name] = ax
        zs = [z for (n, t), a in zip(sf.params, args) for z in self.flatten(a, t)]
        g = lim if sf.name in getattr(self, 'limited', ()) else f
        return mk(sf.ret, g(*zs))

    def rec_axioms(self):
        """definitional axioms of the recursive functions: name -> list of formulas"""
        if not hasattr(self.reg, '_recax'):
            self.reg._recax = {}
        out = self.reg._recax
        while True:
            todo = [n for n in self.reg.recdefs if n not in out]
            if not todo:
                return out
            for n in todo:
                r = self.reg.recdefs[n]
                d = {}

                def limf(*a):
                    return z3.Function('lim:' + n, *[x.sort() for x in a], d['ret'])(*a)
                if n.startswith('sum_'):
                    d['ret'] = z3.IntSort() if n == 'sum_Int' else z3.RealSort()
                vs, body = r(limf)
                f = z3.Function('rec:' + n, *[v.sort() for v in vs], body.sort())
                lim = z3.Function('lim:' + n, *[v.sort() for v in vs], body.sort())
                out[n] = [z3.ForAll(vs, f(*vs) == body, patterns=[f(*vs)]),
                          z3.ForAll(vs, f(*vs) == lim(*vs), patterns=[f(*vs)])]

    def lemma_env(self, lm, args):
        fr = self.new_frame(None, None, 'lemma:' + lm.name)
        for (n, t), a in zip(lm.params, args):
            self.st.frames[fr.fid][n] = a
        return fr

    def lemma_terms(self, lm, args):
        fr = self.lemma_env(lm, args)
        saved, self.spec_env = self.spec_env, {}
        self.callstack.append(fr)
        self.spec += 1
        try:
            req = And_(*[self.truth(self.ev(self.reg.parse(x))) for x in lm.requires]) if lm.requires else True
            ens = And_(*[self.truth(self.ev(self.reg.parse(x))) for x in lm.ensures])
            return req, ens
        finally:
            self.spec -= 1
            self.callstack.pop()
            self.spec_env = saved

    def lemma_inst(self, lm, args):
        req, ens = self.lemma_terms(lm, args)
        self.used_lemmas.add(lm.name)
        return self.to_bool(as_bool(Implies_(req, b(ens))))

    used_lemmas = set()

    def verify_lemma(self, lm):
        """proof obligations of a lemma (by induction over lm.induct when given)"""
        self.cur = Contract('lemma:' + lm.name, short='lemma ' + lm.name)
        self.vcs = []

        def run():
            self.old_st = None
            args = []
            for n, t in lm.params:
                if isinstance(t, TFun):
                    args.append(t)
                else:
                    args.append(self.symbolic(t, n))
            fr = self.lemma_env(lm, args)
            self.callstack.append(fr)
            self.cur_where = 'lemma ' + lm.name
            for x in lm.requires:
                self.assume(self.spec_eval(x))
            if lm.induct:
                ix = [n for n, _ in lm.params].index(lm.induct)
                n = self.scalar(args[ix], Int)
                self.spec += 1
                try:
                    # strong induction over the natural number lm.induct, other arguments arbitrary
                    q = self.qvar('ih', z3.IntSort())
                    vs, args2 = [q], []
                    for j, (nm, t) in enumerate(lm.params):
                        if j == ix:
                            args2.append(SV(Int, q))
                        elif lm.pre and nm in lm.pre:     # generalised arguments
                            terms = [self.qvar(nm, s) for s in sorts(t)]
                            vs += terms
                            args2.append(self.unflatten_snap(t, terms))
                        else:
                            args2.append(args[j])
                    self.callstack.pop()
                    req, ens = self.lemma_terms(lm, args2)
                    body = Implies_(And_(0 <= q, q < n, b(req)), b(ens))
                    if len(vs) == 1:
                        # the predecessor instance explicitly, and the general hypothesis
                        self.assume(z3.substitute(b(body), (q, n - 1)))
                    self.assume(z3.ForAll(vs, b(body)))
                    self.callstack.append(fr)
                finally:
                    self.spec -= 1
                self.oblige('induction-variable-is-natural', n >= 0, 'lemma')
            if lm.hints:
                self.ghost_exec(lm.hints)
            for i, x in enumerate(lm.ensures):
                self.oblige('ensures%d' % (i + 1), self.spec_eval(x), 'lemma')
        self.explore(run)
        return self.vcs

    # ------------------------------------------------------------ calling through a contract
    def apply_contract(self, c, bound, args, kw, f=None):
        if self.spec:
            return self.spec_apply(c, bound, args, kw, f)
        self.used_contracts.add(c.qual)
        mod = f.mod if f is not None else None
        fr = self.new_frame(mod, f.frame if f is not None else None, c.qual, f.cls if f is not None else None)
        env = self.st.frames[fr.fid]
        if f is not None and not isinstance(f, SV):
            self.bind_args(f.bind(bound) if bound is not None else f, args, kw, fr)
        else:
            names = c.names or list(c.params)
            vals = ([bound] if bound is not None else []) + list(args)
            for n, v in zip(names, vals):
                env[n] = v
            env.update(kw)
            for n in names:
                if n not in env:
                    env[n] = None
        if c.effect is not None:
            return c.effect(self, env)
        site = '%s' % c.short
        saved_env, self.spec_env = self.spec_env, {}
        saved_old = self.old_st
        self.callstack.append(fr)
        try:
            for n, t in c.params.items():
                if n in env:
                    env[n] = self.adopt_arg(env[n], t)
            for lab, text in c.requires:
                self.oblige('call %s/%s' % (site, lab), self.spec_eval(text), 'precondition')
            for exc, cond, kind in c.raises:
                g = self.spec_eval(cond)
                if self.may_raise(exc):
                    if kind == 'iff':
                        if self.branch(g):
                            raise PyRaise(exc, (), 'from ' + site)
                    elif self.choose([True, g]) == 1:
                        raise PyRaise(exc, (), 'from ' + site)
                else:
                    self.oblige('call %s/does-not-raise-%s' % (site, exc), Not_(g), 'precondition')
            pre = self.st.copy()
            for m in c.modifies:
                if m not in c.ghosts:
                    self.havoc_path(m)
            self.old_st = pre
            if c.returns is not None:
                self.spec += 1
                try:
                    r = self.ev(self.reg.parse(c.returns))
                finally:
                    self.spec -= 1
                r = self.own(r)
            elif c.ret is not None:
                r = self.symbolic(c.ret, 'ret_' + c.short.split('.')[-1])
            else:
                r = None
            self.spec_env = {'result': r}
            for lab, text in c.ensures:
                self.assume(self.spec_eval(text))
            if c.post:
                c.post(self, env, r)
            return r
        finally:
            self.callstack.pop()
            self.spec_env = saved_env
            self.old_st = saved_old

    def own(self, v):
        if isinstance(v, Handle) and isinstance(v.loc, ConstLoc):
            return self.new_cell(v.loc.t, v.loc.terms)
        return v

    def adopt_arg(self, v, t):
        """a python-side literal passed where the contract declares a container type"""
        if isinstance(v, Handle) and is_container(t) and not isinstance(t, TArr):
            c = self.cell(v)
            if c is not None and not isinstance(self.final_loc(v.loc), ConstLoc):
                try:
                    self.promote(v, t)
                except Unsupported:
                    pass
        return v

    def spec_apply(self, c, bound, args, kw, f):
        """a contracted function used inside a specification: only via its `returns` expression"""
        if c.returns is None or f is None:
            if f is not None:
                return self.inline(f.bind(bound) if bound is not None else f, args, kw)
            raise Unsupported('%s used in a specification' % c.short)
        return self.inline(f.bind(bound) if bound is not None else f, args, kw)

    def havoc_path(self, m):
        text, t = m if isinstance(m, tuple) else (m, None)
        e = self.reg.parse(text)
        if isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name) and e.value.id in self.reg.refs:
            k = (e.value.id, e.attr)
            self.note_write(('farr',) + k, None)
            arrs = tuple(self.fresh('%s.%s' % k, x.sort()) for x in self.st.farr[k])
            self.st.farr[k] = arrs
            rt = self.reg.refs[k[0]].fields[k[1]]
            r = z3.Const('r', z3.IntSort())
            w = self.wf(rt, [sel(x, r) for x in arrs])
            if w is not True:
                self.assume(z3.ForAll([r], z3.Implies(z3.And(0 <= r, r < self.st.alloc[k[0]]), w)))
            return
        if isinstance(e, ast.Name) and e.id in self.reg.refs:      # allocation
            self.note_write(('alloc', e.id), None)
            n = self.fresh('alloc', z3.IntSort())
            self.assume(n >= self.st.alloc[e.id])
            self.st.alloc[e.id] = n
            return
        if isinstance(e, ast.Attribute):
            self.spec += 1
            try:
                o = self.ev(e.value)
            finally:
                self.spec -= 1
            o = self.unopt(o)
            if isinstance(o, ObjV):
                cls, fields = self.st.objs[o.addr]
                cn = cls if isinstance(cls, str) else cls.name
                cur = fields.get(e.attr, UNDEF)
                t = t or self.reg.field_t(cn, e.attr)
                if cur is UNDEF or t is not None and not is_container(t):
                    if t is None:
                        raise Unsupported('modified field %s undefined' % text)
                    self.note_write(('obj', o.addr, e.attr), t)
                    fields[e.attr] = self.symbolic(t, e.attr)
                    return
                if isinstance(cur, Handle):
                    return self.havoc_cell(cur, t)
                ct = self.type_of(cur)
                self.note_write(('obj', o.addr, e.attr), ct)
                fields[e.attr] = self.symbolic(ct, e.attr)
                return
            if isinstance(o, SV) and isinstance(o.t, TRef):
                ft = self.reg.refs[o.t.cls].fields[e.attr]
                terms = [self.fresh(e.attr, s) for s in sorts(ft)]
                self.assume(self.wf(ft, terms))
                self.write(FieldLoc(o.t.cls, e.attr, o.z, ft), terms)
                return
        self.spec += 1
        try:
            v = self.ev(e)
        finally:
            self.spec -= 1
        if isinstance(v, Handle):
            return self.havoc_cell(v, t)
        raise Unsupported('modifies %s' % text)

    def havoc_cell(self, h, t=None):
        c = self.cell(h)
        if c is not None:
            self.promote(h, t or self.loc_t(h.loc))
        ct = self.loc_t(h.loc)
        terms = [self.fresh('mod', s) for s in sorts(ct)]
        if isinstance(ct, TArr):
            terms[:ct.nd] = self.read(h.loc)[:ct.nd]
        self.assume(self.wf(ct, terms))
        self.write(h.loc, terms)

    # ------------------------------------------------------------ verifying a function against its contract
    def mod_keys(self, c):
        keys = set()
        for m in c.modifies:
            text = m[0] if isinstance(m, tuple) else m
            e = self.reg.parse(text)
            if isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name) and e.value.id in self.reg.refs:
                keys.add(('farr', e.value.id, e.attr))
                continue
            if isinstance(e, ast.Name) and e.id in self.reg.refs:
                keys.add(('alloc', e.id))
                continue
            self.spec += 1
            try:
                if isinstance(e, ast.Attribute):
                    o = self.unopt(self.ev(e.value))
                    if isinstance(o, ObjV):
                        keys.add(('obj', o.addr, e.attr))
                        cur = self.st.objs[o.addr][1].get(e.attr)
                        if isinstance(cur, Handle):
                            l = self.final_loc(cur.loc)
                            if isinstance(l, Root):
                                keys.add(('cell', l.addr))
                        continue
                    if isinstance(o, SV) and isinstance(o.t, TRef):
                        keys.add(('fref', o.t.cls, e.attr, o.z))
                        continue
                v = self.ev(e)
                if isinstance(v, Handle):
                    l = self.final_loc(v.loc)
                    if isinstance(l, Root):
                        keys.add(('cell', l.addr))
            finally:
                self.spec -= 1
        return keys

    def check_frame(self, c, keys):
        old = self.old_st
        for a, oc in old.cells.items():
            nc = self.st.cells.get(a)
            if ('cell', a) in keys or nc is oc or same_cell(oc, nc):
                continue
            if isinstance(oc, SymCell):
                terms = self.read(Root(a))
                if len(terms) == len(oc.terms):
                    g = And_(*[as_bool(x == y) for x, y in zip(oc.terms, terms)])
                    self.oblige('frame/unlisted-container-unchanged', g, 'frame')
                    continue
            self.oblige('frame/unlisted-container-unchanged', False, 'frame')
        for a, (cls, f) in old.objs.items():
            nf = self.st.objs[a][1]
            for n in set(f) | set(nf):
                if n.startswith('#') or ('obj', a, n) in keys:
                    continue
                if n not in f or n not in nf:
                    self.oblige('frame/field-%s-unchanged' % n, False, 'frame')
                    continue
                if f[n] is nf[n]:
                    continue
                if isinstance(f[n], Handle) and isinstance(nf[n], Handle) and \
                        repr(self.final_loc(f[n].loc)) == repr(self.final_loc(nf[n].loc)):
                    continue
                try:
                    g = self.identical(f[n], nf[n]) if isinstance(f[n], Handle) else self.eq(f[n], nf[n])
                except Unsupported:
                    g = False
                self.oblige('frame/field-%s-unchanged' % n, g, 'frame')
        for k, arrs in old.farr.items():
            if ('farr',) + k in keys:
                continue
            new = self.st.farr[k]
            if all(x.eq(y) for x, y in zip(arrs, new)):
                continue
            rs = [q[3] for q in keys if q[0] == 'fref' and q[1:3] == k]
            r = z3.Const('r', z3.IntSort())
            g = z3.ForAll([r], z3.Implies(z3.And(0 <= r, r < old.alloc[k[0]], *[r != x for x in rs]),
                                          z3.And(*[sel(x, r) == sel(y, r) for x, y in zip(arrs, new)])))
            self.oblige('frame/%s.%s-unchanged' % k, g, 'frame')

    def verify(self, c, max_restarts=80):
        """all verification conditions of the function named by contract c"""
        mod, cls, node = self.prog.function(c.qual.split('#')[0])
        self.cur = c
        self.modsets = {}
        self.loop_order = {}
        self.loops_seen = set()
        self.inlined, self.used_contracts = set(), set()
        stats = {'paths': 0, 'returns': 0}
        fq = c.qual.split('#')[0]

        def thunk():
            self.limited, self.sums = (), []
            self.init_refs()
            self.trydepth = []
            st = self.st
            base = self.new_frame(mod, None, fq)
            self.callstack.append(base)
            env = {}
            for n, t in c.params.items():
                v = self.symbolic(t, n) if isinstance(t, T) else t(self, env) if callable(t) else t
                env[n] = v
            genv = {}
            for n, t in c.ghosts.items():
                genv[n] = self.symbolic(t, n) if isinstance(t, T) else t(self, env)
            self.spec_env = dict(genv)
            st.frames[base.fid].update(env)
            if c.setup:
                c.setup(self, env)
                st.frames[base.fid].update(env)
            self.cur_where = '%s entry' % fq
            for lab, text in c.requires:
                self.assume(self.spec_eval(text))
            if c.use_pre:
                self.ghost_exec(c.use_pre)
            self.req_pc = [f for _, f in self.st.pc]
            keys = self.mod_keys(c)
            self.old_st = self.st.copy()
            names = [a.arg for a in node.args.posonlyargs + node.args.args + node.args.kwonlyargs]
            self.callstack.pop()
            fparent = None
            if '<locals>' in fq:
                fparent = base
            fv = FuncV(node, mod, fparent, fq, cls=(mod, cls) if cls is not None else None)
            kwa = {n: env[n] for n in names if n in env}
            if node.args.vararg is not None and node.args.vararg.arg in env:
                self.st.frames[base.fid]['*'] = env[node.args.vararg.arg]
            exc = None
            self.top_frames = []
            try:
                r = self.inline_top(fv, kwa, env, node, c)
            except PyRaise as e:
                exc = e
            self.callstack.append(base)
            self.spec_env = dict(genv)
            self.cur_where = '%s exit' % fq
            if exc is not None:
                ent = [x for x in c.raises if exc_isa(exc.cls, x[0])]
                if not ent:
                    self.oblige('no-unexpected-%s' % exc.cls, False, 'exception')
                    return
                g = self.in_old(lambda: Or_(*[b(self.spec_eval(x[1])) for x in ent]))
                self.oblige('raises-%s-only-when-specified' % exc.cls, g, 'exception')
                for lab, text in c.raise_ensures:
                    self.oblige('on-exception/' + lab, self.spec_eval(text), 'postcondition')
                return
            for x in c.raises:
                if x[2] == 'iff':
                    g = self.in_old(lambda: self.spec_eval(x[1]))
                    self.oblige('raises-%s-when-specified' % x[0], Not_(g), 'exception')
            if c.returns is not None:
                self.spec += 1
                try:
                    want = self.in_old(lambda: self.snapshot(self.ev(self.reg.parse(c.returns))))
                finally:
                    self.spec -= 1
                self.oblige('returns', self.eq(r, want), 'postcondition')
            self.spec_env = dict(genv, result=self.settle(r))
            # locals visible to exit hints through spec_env
            if c.use_post:
                self.spec_env.update(self.exit_locals)
                self.ghost_exec(c.use_post)
            for lab, text in c.ensures:
                self.oblige('ensures/' + lab, self.spec_eval(text), 'postcondition')
            if c.frame:
                self.check_frame(c, keys)
            stats['returns'] += 1
            stats.setdefault('exit_pcs', []).append([f for _, f in self.st.pc])
        restarts = 0
        t0 = time.time()
        while True:
            self.vcs = []
            self.loops_seen = set()
            stats = {'paths': 0, 'returns': 0}
            try:
                stats['paths'] = self.explore(thunk)
                break
            except Restart:
                restarts += 1
                if restarts > max_restarts:
                    raise Unsupported('loop modification sets do not stabilise')
        stats['time'] = time.time() - t0
        stats['restarts'] = restarts
        if len(c.loops) > len(self.loop_order):
            stats['unmatched_loops'] = len(c.loops) - len(self.loop_order)
        stats['missed_hints'] = sorted(set(c.hints) - c.hints_done)
        return self.vcs, stats

    def inline_top(self, fv, kwa, env, node, c):
        fr = self.new_frame(fv.mod, fv.frame, fv.qual, fv.cls, c.locals)
        a = node.args
        e = self.st.frames[fr.fid]
        defaults = dict(zip([x.arg for x in a.args][len(a.args) - len(a.defaults):], a.defaults))
        defaults.update({x.arg: d for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None})
        for x in a.posonlyargs + a.args + a.kwonlyargs:
            if x.arg in kwa:
                e[x.arg] = kwa[x.arg]
            elif x.arg in defaults:
                e[x.arg] = self.default_value(defaults[x.arg], fv)
            elif x.arg == 'cls' and fv.cls is not None:
                e['cls'] = ClassV(fv.cls[1].name, fv.cls[0], fv.cls[1])
            else:
                raise Unsupported('parameter %s of %s has no declared type' % (x.arg, fv.qual))
        if a.vararg is not None:
            e[a.vararg.arg] = env.get(a.vararg.arg, ())
        if a.kwarg is not None:
            e[a.kwarg.arg] = env.get(a.kwarg.arg) or self.new_py('dict', [])
        if a.args and fv.cls is not None:
            fr.self_name = a.args[0].arg
        isgen = is_generator(node)
        if isgen:
            y = self.new_py('list', [])
            e['_yielded'] = self.adopt(y, c.ret) if isinstance(c.ret, TList) else y
        if c.part:
            e.update({k: v for k, v in env.items() if k not in e})
        self.callstack.append(fr)
        if c.lexical and not self.loop_order:
            for st in part_of(node, c.part) if c.part else node.body:
                for x in walk_in_order(st):
                    if isinstance(x, (ast.For, ast.While)):
                        self.loop_order[self.loop_site(x)] = len(self.loop_order)
        try:
            self.block(part_of(node, c.part) if c.part else node.body)
            r = None
        except ReturnEx as x:
            r = x.v
        finally:
            self.exit_locals = {k: v for k, v in self.st.frames.get(fr.fid, {}).items()}
            self.callstack.pop()
        if isgen:
            return self.st.frames[fr.fid]['_yielded']
        return r

"""Meaning of generated statements, given as facts about syntax-tree nodes when they are made (shared by C04, C11, C17).

K (kernel array), G (globals) and i (loop variable) are arbitrary fixed values, so what is proved about VAL holds for all of them.
  IDX(n)   value of an index expression          VAL(n)   value of an expression
  SLOT(n)  index a subscript addresses           BASE(n)  name of the array it addresses
  TGTN(s)  number of targets of an assignment    TGT(s,q) its q-th target node     RHS(s)  its value node
  FUN(n), NARG(n), ARG(n,q)  called name and arguments      NEL(n), EL(n,q)  elements of a list or tuple
"""
import z3
from pyvc.spec import *
from pyvc.vals import *

I, R, N = z3.IntSort(), z3.RealSort(), NodeSort


def F(name, *ss):
    return z3.Function('app_' + name, *ss)


def S(x):
    return str_lit(x)


def install(reg, arrays=('kernel_variables', 'global_variables')):
    from pyvc.types import StrSort
    IDX, VAL, SLOT, BASE = F('IDX', N, I), F('VAL', N, R), F('SLOT', N, I), F('BASE', N, StrSort)
    TGTN, TGT, RHS = F('TGTN', N, I), F('TGT', N, I, N), F('RHS', N, N)
    FUN, NARG, ARG = F('FUN', N, StrSort), F('NARG', N, I), F('ARG', N, I, N)
    NEL, EL, NAMED = F('NEL', N, I), F('EL', N, I, N), F('NAMED', N, StrSort)
    KERN, GLOB = F('KERN', I, R), F('GLOB', I, R)
    VALUE, ITER, BODYN, BODY, KIND = F('VALUE', N, N), F('ITER', N, N), F('BODYN', N, I), F('BODY', N, I, N), z3.Function('kind', N, I)
    LOOPVAR = z3.Int('loop:i')

    def node(v, x):
        return v.scalar(x, NodeT)

    def cls_of(v, x):
        x = v.settle(x)
        return v.st.objs[x.addr][0] if isinstance(x, ObjV) else x.path if isinstance(x, Ext) else None

    def seq(v, nd, x, count, at):
        if x is None:
            return
        s = v.seq_of(x)
        v.assume(count(nd) == iz(s.n))
        if isinstance(s.n, int):
            for j in range(s.n):
                v.assume(at(nd, z3.IntVal(j)) == node(v, s.get(j)))
        else:
            j = v.fresh('oj', I)
            sp, v.spec = v.spec, v.spec + 1
            try:
                t = node(v, s.get(j))
            finally:
                v.spec = sp
            v.assume(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < s.n), at(nd, j) == t), patterns=[at(nd, j)]))

    def name(v, nd, f):
        x = f.get('id')
        z = v.scalar(x, Str)
        v.assume(NAMED(nd) == z)
        if isinstance(x, str) and x == 'i':
            v.assume(IDX(nd) == LOOPVAR)

    def const(v, nd, f):
        x = v.settle(f.get('value'))
        t = v.type_of(x)
        if isinstance(t, TInt) or isinstance(x, int) and not isinstance(x, bool):
            z = v.scalar(x, Int)
            v.assume(IDX(nd) == z)
            v.assume(VAL(nd) == z3.ToReal(z))
        elif isinstance(t, TReal) or isinstance(x, float):
            v.assume(VAL(nd) == v.scalar(x, Real))

    def index(v, nd, f):
        x = node(v, f['value'])
        v.assume(IDX(nd) == IDX(x))

    def subscript(v, nd, f):
        b_, s = node(v, f['value']), node(v, f['slice'])
        v.assume(z3.And(SLOT(nd) == IDX(s), BASE(nd) == NAMED(b_)))
        v.assume(z3.Implies(BASE(nd) == S(arrays[0]), VAL(nd) == KERN(SLOT(nd))))
        v.assume(z3.Implies(BASE(nd) == S(arrays[1]), VAL(nd) == GLOB(SLOT(nd))))

    def binop(v, nd, f):
        l, r = node(v, f['left']), node(v, f['right'])
        op = cls_of(v, f['op'])
        if op == 'ast.Add':
            v.assume(z3.And(VAL(nd) == VAL(l) + VAL(r), IDX(nd) == IDX(l) + IDX(r)))
        elif op == 'ast.Mult':
            v.assume(z3.And(VAL(nd) == VAL(l) * VAL(r), IDX(nd) == IDX(l) * IDX(r)))
        elif op == 'ast.Sub':
            v.assume(z3.And(VAL(nd) == VAL(l) - VAL(r), IDX(nd) == IDX(l) - IDX(r)))

    def call(v, nd, f):
        c = node(v, f['func'])
        v.assume(z3.And(FUN(nd) == NAMED(c), F('CALLEE', N, N)(nd) == c))
        seq(v, nd, f.get('args'), NARG, ARG)

    def elts(v, nd, f):
        seq(v, nd, f.get('elts'), NEL, EL)

    def assign(v, nd, f):
        v.assume(RHS(nd) == node(v, f['value']))
        s = v.seq_of(f['targets'])
        if s.n != 1:
            return
        x = node(v, s.get(0))
        tup = z3.Or(KIND(x) == reg.clsid('ast.Tuple'), KIND(x) == reg.clsid('ast.List'))
        j = v.fresh('oj', I)
        v.assume(z3.If(tup, z3.And(TGTN(nd) == NEL(x), z3.ForAll([j], TGT(nd, j) == EL(x, j), patterns=[TGT(nd, j)])),
                       z3.And(TGTN(nd) == 1, TGT(nd, z3.IntVal(0)) == x)))

    def value(v, nd, f):
        v.assume(VALUE(nd) == node(v, f['value']))

    def loop(v, nd, f):
        v.assume(ITER(nd) == node(v, f['iter']))
        seq(v, nd, f.get('body'), BODYN, BODY)

    NPAR, PAR, TEST, LEFT, ATTR, RIGHT = F('NPAR', N, I), F('PAR', N, I, N), F('TEST', N, N), F('LEFT', N, N), F('ATTR', N, StrSort), F('RIGHT', N, N)
    EQ, FNAME = F('EQ', N, z3.BoolSort()), z3.Function('attr_name.0', N, StrSort)

    def fundef(v, nd, f):
        v.assume(FNAME(nd) == v.scalar(f['name'], Str))
        seq(v, nd, f.get('body'), BODYN, BODY)
        a = v.settle(f['args'])
        if isinstance(a, ObjV):
            seq(v, nd, v.st.objs[a.addr][1].get('args'), NPAR, PAR)

    def param(v, nd, f):
        v.assume(NAMED(nd) == v.scalar(f['arg'], Str))

    def cond(v, nd, f):
        v.assume(TEST(nd) == node(v, f['test']))
        seq(v, nd, f.get('body'), BODYN, BODY)

    def comparison(v, nd, f):
        ops, right = v.seq_of(f['ops']), v.seq_of(f['comparators'])
        if ops.n == 1 and right.n == 1:
            v.assume(z3.And(LEFT(nd) == node(v, f['left']), RIGHT(nd) == node(v, right.get(0)), EQ(nd) == (cls_of(v, ops.get(0)) == 'ast.Eq')))

    def attribute(v, nd, f):
        v.assume(z3.And(ATTR(nd) == v.scalar(f['attr'], Str), VALUE(nd) == node(v, f['value'])))

    for k, fn in dict(FunctionDef=fundef, arg=param, If=cond, Compare=comparison, Attribute=attribute, Name=name, Constant=const, Index=index, Subscript=subscript, BinOp=binop, Call=call, List=elts, Tuple=elts, Assign=assign,
                      Expr=value, Return=value, For=loop).items():
        reg.node_axioms.setdefault('ast.' + k, []).append(fn)
    for k in ('Name', 'Constant', 'Subscript', 'BinOp', 'Call', 'List', 'Tuple', 'Assign', 'Expr', 'Return', 'For', 'FunctionDef', 'If', 'Compare', 'Attribute'):
        reg.fn('is' + k, [('n', None)], None, lambda v, n, k=k: SV(Bool, KIND(v.scalar(n, NodeT)) == reg.clsid('ast.' + k)))
    one = dict(IDX=Int, VAL=Real, SLOT=Int, BASE=Str, TGTN=Int, RHS=NodeT, FUN=Str, NARG=Int, NEL=Int, VALUE=NodeT, ITER=NodeT, BODYN=Int, NAMED=Str,
               NPAR=Int, TEST=NodeT, LEFT=NodeT, RIGHT=NodeT, ATTR=Str, EQ=Bool, CALLEE=NodeT)
    for k, t in one.items():
        reg.fn(k, [('n', None)], None, lambda v, n, k=k, t=t: SV(t, F(k, N, t.sort)(v.scalar(n, NodeT))))
    for k, t in dict(TGT=NodeT, ARG=NodeT, EL=NodeT, BODY=NodeT, PAR=NodeT).items():
        reg.fn(k, [('n', None), ('q', None)], None, lambda v, n, q, k=k, t=t: SV(t, F(k, N, I, t.sort)(v.scalar(n, NodeT), v.scalar(q, Int))))
    reg.fn('FNAME', [('n', None)], None, lambda v, n: SV(Str, FNAME(v.scalar(n, NodeT))))
    for k in ('KERN', 'GLOB'):
        reg.fn(k, [('j', None)], None, lambda v, j, k=k: SV(Real, F(k, I, R)(v.scalar(j, Int))))
    reg.fn('LOOPVAR', [], None, lambda v: SV(Int, LOOPVAR))

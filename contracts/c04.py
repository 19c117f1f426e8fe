"""Statements of the interpreted kernel."""
import z3
from pyvc.spec import *
from pyvc.types import StrSort
from pyvc.vals import ExtObj
from . import nodes

EXPLAIN = 'ASTBuilder.__init__, _process_argument, _append_assign_argument, _create_assignments, add_call, add_mapping, _generate_sum_left, add_set_call and ' \
          '_generate_set_call_body against contracts on the meaning of the syntax trees they append (for any contents of the kernel and global arrays).'
ASSUME = ['Python executes assignments, subscripts, sums, calls and for loops over range as it means them, and ast.unparse writes the tree it is given (both run bounded)',
          'floating-point values treated as reals']
AB = 'numerous.engine.model.lowering.ast_builder:ASTBuilder'


def build(reg):
    nodes.install(reg)
    VA = TRef('VArg')
    reg.refs['VArg'] = RefClass(dict(name=Str, is_global_var=Bool), construct=False)
    VARG = z3.Function('VARG', StrSort, z3.BoolSort(), z3.IntSort())
    reg.fn('VARG', [('n', None), ('g', None)], None, lambda v, n, g: SV(VA, VARG(v.scalar(n, Str), v.scalar(g, Bool))))
    VARGS = 'forall(lambda n, g: VARG(n, g).name==n and iff(VARG(n, g).is_global_var, g), T="Str Bool", pat=VARG(n, g))'
    reg.external('VariableArgument', names=['name', 'is_global_var'], ret=VA, returns='VARG(name, is_global_var)')
    reg.globals[('numerous.engine.model.lowering.utils', 'VariableArgument')] = ExtObj(reg.externals['VariableArgument'])
    F = dict(variable_names=TDict(Str, Int), global_names=TDict(Str, Int), body=TList(NodeT), states=TList(Str), derivatives=TList(Str), functions=TList(TAny()),
             read_args_section=TList(NodeT), return_section=TList(NodeT))
    B = TObj('ASTBuilder', **F)
    reg.classes['ASTBuilder'] = AB
    for f, t in F.items():
        reg.fields[('ASTBuilder', f)] = t
    K, G = '"kernel_variables"', '"global_variables"'
    reg.fn('SUMI', [('x', TArr(Int)), ('k', Int)], Real, '0 if k<=0 else SUMI(x,k-1)+KERN(x[k-1])', rec=True)
    reg.fn('SUMN', [('x', TArr(Int)), ('a', Int), ('k', Int)], Real, '0 if k<=a else SUMN(x,a,k-1)+KERN(x[k-1])', rec=True)
    sub = '(isSubscript({n}) and BASE({n})=={b} and SLOT({n})=={s})'
    argslot = 'self.global_names[{a}.name] if {a}.is_global_var else self.variable_names[{a}.name]'
    known = 'implies(not {a}.is_global_var, {a}.name in self.variable_names) and implies({a}.is_global_var, {a}.name in self.global_names)'
    reg.contract(AB + '._process_argument', params=dict(self=B, q1=VA), ret=TTuple(Int, NodeT), raises=[('KeyError', 'not (%s)' % known.format(a='q1'), 'iff')],
                 ensures=[('its-slot', 'result[0]==(%s)' % argslot.format(a='q1')), ('its-array', 'NAMED(result[1])==(%s if q1.is_global_var else %s)' % (G, K))])
    reg.contract(AB + '._append_assign_argument', params=dict(self=B, arg_id=Int, array_type=NodeT), ret=NodeT,
                 ensures=[('reads-that-slot', sub.format(n='result', b='NAMED(array_type)', s='arg_id')),
                          ('value', 'implies(NAMED(array_type)==%s, VAL(result)==KERN(arg_id)) and implies(NAMED(array_type)==%s, VAL(result)==GLOB(arg_id))' % (K, G))])
    CALL = [('a-call-of-the-function', 'isAssign({s}) and isCall(RHS({s})) and FUN(RHS({s}))==external_function_name'),
            ('every-argument-in-order', 'NARG(RHS({s}))==len(input_args) and all(isSubscript(ARG(RHS({s}),q)) and BASE(ARG(RHS({s}),q))==(%s if input_args[q].is_global_var else %s) and '
             'SLOT(ARG(RHS({s}),q))==(%s) for q in range(len(input_args)))' % (G, K, argslot.format(a='input_args[q]'))),
            ('every-result-to-its-target', 'TGTN({s})==len(target_ids) and all(%s for q in range(len(target_ids)))' % sub.format(n='TGT({s},q)', b=K, s='self.variable_names[input_args[target_ids[q]].name]'))]
    pre = [('targets-are-arguments', 'len(target_ids)>0 and all(0<=target_ids[q] and target_ids[q]<len(input_args) and input_args[target_ids[q]].name in self.variable_names for q in range(len(target_ids)))'),
           ('names-known', 'all(%s for q in range(len(input_args)))' % known.format(a='input_args[q]'))]
    reg.contract(AB + '._create_assignments', params=dict(self=B, external_function_name=Str, input_args=TList(VA), target_ids=TList(Int)), ret=NodeT, requires=pre, locals=dict(targets=TList(NodeT), args=TList(NodeT)),
                 ensures=[(a, x.replace('{s}', 'result')) for a, x in CALL],
                 loops=[LoopSpec(['len(targets)==_k and all(%s for q in range(_k))' % sub.format(n='targets[q]', b=K, s='self.variable_names[input_args[target_ids[q]].name]')]),
                        LoopSpec(['len(args)==_k and all(isSubscript(args[q]) and BASE(args[q])==(%s if input_args[q].is_global_var else %s) and SLOT(args[q])==(%s) for q in range(_k))' % (G, K, argslot.format(a='input_args[q]'))])])
    grown = lambda n: ('only-appends', 'len(self.body)==len(old(self.body))+%s and all(self.body[j]==old(self.body)[j] for j in range(len(old(self.body))))' % n)
    last = 'self.body[len(old(self.body))]'
    reg.contract(AB + '.add_call', params=dict(self=B, external_function_name=Str, input_args=TList(VA), target_ids=TList(Int)), requires=pre, modifies=['self.body'],
                 ensures=[grown(1)] + [(a, x.replace('{s}', last)) for a, x in CALL])
    # a call that can be switched off: the same statement behind its own flag
    reg.fields[('ASTBuilder', 'cnd_calls')] = TDict(Str, Int)
    cbody = 'BODY(%s,0)' % last
    cslot = 'self.variable_names[input_args[{}]]'
    reg.contract(AB + '.add_conditional_call', params=dict(self=TObj('ASTBuilder', cnd_calls=TDict(Str, Int), **F), external_function_name=Str, input_args=TList(Str), target_ids=TList(Int), tag=Str, active=Bool),
                 modifies=['self.body', 'self.cnd_calls'], locals=dict(targets=TList(NodeT), args=TList(NodeT)),
                 requires=[('targets-are-arguments', 'len(target_ids)>0 and all(0<=target_ids[q] and target_ids[q]<len(input_args) for q in range(len(target_ids)))'),
                           ('names-known', 'all(a in self.variable_names for a in input_args)')],
                 ensures=[grown(1), ('behind-its-own-flag', 'isIf({s}) and NAMED(TEST({s}))==external_function_name+"_flag" and BODYN({s})==1'.format(s=last)),
                          ('found-by-its-tag', 'tag in self.cnd_calls and self.cnd_calls[tag]==len(old(self.body))'),
                          ('a-call-of-the-function', 'isAssign({s}) and isCall(RHS({s})) and FUN(RHS({s}))==external_function_name'.format(s=cbody)),
                          ('every-argument-in-order', 'NARG(RHS({s}))==len(input_args) and all({x} for q in range(len(input_args)))'.format(s=cbody, x=sub.format(n='ARG(RHS(%s),q)' % cbody, b=K, s=cslot.format('q')))),
                          ('every-result-to-its-target', 'TGTN({s})==len(target_ids) and all({x} for q in range(len(target_ids)))'.format(s=cbody, x=sub.format(n='TGT(%s,q)' % cbody, b=K, s=cslot.format('target_ids[q]'))))],
                 loops=[LoopSpec(['len(targets)==_k and all(%s for q in range(_k))' % sub.format(n='targets[q]', b=K, s=cslot.format('target_ids[q]'))]),
                        LoopSpec(['len(args)==_k and all(%s for q in range(_k))' % sub.format(n='args[q]', b=K, s=cslot.format('q'))])])
    reg.lemma('sum_shift', [('x', TArr(Int)), ('y', TArr(Int)), ('k', Int)], induct='k', requires=['0<=k', 'all(y[j]==x[j+1] for j in range(k))'], ensures=['SUMI(y,k)+KERN(x[0])==SUMI(x,k+1)'])
    reg.lemma('sum_same', [('x', TArr(Int)), ('y', TArr(Int)), ('k', Int)], induct='k', requires=['0<=k', 'all(y[j]==x[j] for j in range(k))'], ensures=['SUMI(x,k)==SUMI(y,k)'])
    reg.fn('TAIL', [('x', None)], None, lambda v, x: LazyArr(Int, (iz(v.seq_of(x).n) - 1,), lambda j: v.getitem(x, mk(Int, iz(j) + 1))))
    reg.fn('ARR', [('x', None)], None, lambda v, x: LazyArr(Int, (iz(v.seq_of(x).n),), lambda j: v.getitem(x, mk(Int, iz(j)))))
    reg.fn('SLOTS', [('m', None), ('x', None)], None, lambda v, m, x: LazyArr(Int, (iz(v.seq_of(x).n),), lambda j: v.getitem(m, v.getattr(v.getitem(x, mk(Int, iz(j))), 'name'))))
    reg.contract(AB + '._generate_sum_left', params=dict(self=B, arg_idxs=TList(Int)), ret=NodeT, ghosts=dict(xs=TArr(Int), ys=TArr(Int)), modifies=['xs', 'ys'],
                 use_post='xs = ARR(arg_idxs)\nys = TAIL(arg_idxs)\nuse(sum_shift(xs, ys, len(arg_idxs)-1))',
                 ensures=[('sum-of-all', 'VAL(result)==SUMI(ARR(arg_idxs), len(arg_idxs))')])
    one = 'isAssign({s}) and TGTN({s})==1 and %s' % sub.format(n='TGT({s},0)', b=K, s='self.variable_names[{t}.name]')
    val = 'VAL(RHS({s}))==SUMI(SLOTS(self.variable_names, args), len(args))'
    st = 'self.body[len(old(self.body))+t]'
    reg.contract(AB + '.add_mapping', params=dict(self=B, args=TList(VA), targets=TList(VA)), modifies=['self.body'], locals=dict(arg_idxs=TList(Int)), hints=dict(temp='use(sum_same(ARR(arg_idxs), SLOTS(self.variable_names, args), len(args)))\nuse(sum_same(TAIL(arg_idxs), ARR(arg_idxs[1:]), len(args)-1))\nuse(sum_shift(ARR(arg_idxs), TAIL(arg_idxs), len(args)-1))\ncheck(VAL(RHS(temp))==SUMI(ARR(arg_idxs), len(args)))\ncheck(VAL(RHS(temp))==SUMI(SLOTS(self.variable_names, args), len(args)))'),
                 requires=[('names-known', 'all(a.name in self.variable_names for a in args) and all(t.name in self.variable_names for t in targets)'), ('something-to-assign', 'len(args)>0')],
                 ensures=[grown('len(targets)'), ('assigns-each-target', 'all(%s for t in range(len(targets)))' % one.format(s=st, t='targets[t]')),
                          ('the-sum-of-the-sources', 'all(%s for t in range(len(targets)))' % val.format(s=st))],
                 loops=[LoopSpec([grown('_k')[1], 'all(%s for t in range(_k))' % one.format(s=st, t='targets[t]'), 'all(%s for t in range(_k))' % val.format(s=st)]),
                        LoopSpec(['len(arg_idxs)==_a and all(arg_idxs[j]==self.variable_names[args[j].name] for j in range(_a))'], index='_a')])
    # sets: element LOOPVAR of a set laid out element after element
    n = 'len(variable_name_arg_and_trg)'
    w = 'len(variable_name_arg_and_trg[0])'
    body = 'BODY(%s,0)' % last
    at = 'strart_idx+{p}+LOOPVAR()*arg_length'
    SC = lambda s, p, a: [('a-call-of-the-function', 'isAssign({s}) and isCall(RHS({s})) and FUN(RHS({s}))==external_function_name'.format(s=s)),
                       ('every-argument-in-order', 'NARG(RHS({s}))=={a} and all({x} for q in range({a}))'.format(s=s, a=a, x=sub.format(n='ARG(RHS(%s),q)' % s, b=K, s=p.format('q')))),
                       ('every-result-to-its-target', 'TGTN({s})==len(target_ids) and all({x} for q in range(len(target_ids)))'.format(s=s, x=sub.format(n='TGT(%s,q)' % s, b=K, s=p.format('target_ids[q]'))))]
    P1 = 'strart_idx+{}+arg_length*LOOPVAR()'
    reg.contract(AB + '._generate_set_call_body', params=dict(self=B, external_function_name=Str, arg_length=Int, strart_idx=Int, target_ids=TList(Int)), ret=NodeT, locals=dict(targets=TList(NodeT), args=TList(NodeT)),
                 requires=[('some-targets', 'len(target_ids)>0 and 0<=arg_length')], ensures=SC('result', P1, 'arg_length'),
                 loops=[LoopSpec(['len(targets)==_k and all(%s for q in range(_k))' % sub.format(n='targets[q]', b=K, s=P1.format('target_ids[q]'))]),
                        LoopSpec(['len(args)==_k and all(%s for q in range(_k))' % sub.format(n='args[q]', b=K, s=P1.format('q'))])])
    NM = 'variable_name_arg_and_trg'
    FOLLOW = 'all(self.variable_names[{0}[e][p]]==self.variable_names[{0}[0][0]]+e*{1}+p for e in range({2}) for p in range({1}))'.format(NM, w, n)
    one_el, P3 = 'self.body[len(old(self.body))+e]', 'self.variable_names[%s[e][{}]]' % NM
    P2 = 'self.variable_names[%s[LOOPVAR()][{}]]' % NM
    reg.contract(AB + '.add_set_call', params=dict(self=B, external_function_name=Str, variable_name_arg_and_trg=TList(TList(Str)), targets_ids=TList(Int)), modifies=['self.body'],
                 requires=[('elements-of-one-size', '%s>0 and len(targets_ids)>0 and all(len(%s[e])==%s and all(%s[e][p] in self.variable_names for p in range(%s)) for e in range(%s))' % (n, NM, w, NM, w, n)),
                           ('first-argument', w + '>0'),
                           ('targets-are-arguments', 'all(0<=targets_ids[q] and targets_ids[q]<%s for q in range(len(targets_ids)))' % w),
                           ('some-element', '0<=LOOPVAR() and LOOPVAR()<%s' % n), ('fields-of-a-new-argument', VARGS)],
                 ensures=[('only-appends', 'len(self.body)==len(old(self.body))+(1 if %s else %s) and all(self.body[j]==old(self.body)[j] for j in range(len(old(self.body))))' % (FOLLOW, n)),
                          ('once-per-element', 'implies({f}, isFor({s}) and isCall(ITER({s})) and FUN(ITER({s}))=="range" and NARG(ITER({s}))==1 and IDX(ARG(ITER({s}),0))=={n} and BODYN({s})==1)'.format(f=FOLLOW, s=last, n=n))] +
                 [(a + '-in-the-loop', 'implies(%s, %s)' % (FOLLOW, x.replace('target_ids', 'targets_ids'))) for a, x in SC(body, P2, w)] +
                 [(a + '-one-by-one', 'implies(not %s, all(%s for e in range(%s)))' % (FOLLOW, x.replace('target_ids', 'targets_ids'), n)) for a, x in SC(one_el, P3, w)],
                 loops=[LoopSpec([grown('_k')[1]] + ['all(%s for e in range(_k))' % x.replace('target_ids', 'targets_ids') for a, x in SC(one_el, P3, w)])])
    secs = [('states-are-put-into-their-slots', 'len(self.read_args_section)==1 and isExpr(self.read_args_section[0]) and FUN({c})=="np.put" and NARG({c})==3 and NAMED(ARG({c},0))=={K} and NAMED(ARG({c},2))=="states" and '
             'NEL(ARG({c},1))==len(states) and all(IDX(EL(ARG({c},1),j))==variable_names[states[j]] for j in range(len(states)))'.format(c='VALUE(self.read_args_section[0])', K=K)),
            ('derivatives-are-taken-from-their-slots', 'len(self.return_section)==1 and isReturn(self.return_section[0]) and FUN({c})=="np.take" and NARG({c})==2 and NAMED(ARG({c},0))=={K} and '
             'NEL(ARG({c},1))==len(derivatives) and all(IDX(EL(ARG({c},1),j))==variable_names[derivatives[j]] for j in range(len(derivatives)))'.format(c='VALUE(self.return_section[0])', K=K)),
            ('initial-values-in-slot-order', 'len(self.body_init_set_var)==1 and TGTN({s})==1 and NAMED(TGT({s},0))=={K} and FUN(RHS({s}))=="np.array" and NEL(ARG(RHS({s}),0))==len(initial_values) and '
             'all(VAL(EL(ARG(RHS({s}),0),j))==initial_values[j] for j in range(len(initial_values)))'.format(s='self.body_init_set_var[0]', K=K)),
            ('starts-empty', 'len(self.body)==0')]
    reg.fields[('ASTBuilder', 'body_init_set_var')] = TList(NodeT)
    reg.contract(AB + '.__init__', params=dict(self=TObj('ASTBuilder'), initial_values=TArr(Real), variable_names=TDict(Str, Int), global_names=TDict(Str, Int), states=TList(Str),
                                               derivatives=TList(Str), system_tag=Str), frame=False,
                 requires=[('names-known', 'all(s in variable_names for s in states) and all(d in variable_names for d in derivatives)')], ensures=secs)

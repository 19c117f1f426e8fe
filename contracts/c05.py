"""Instructions of the compiled kernel, with the memory they leave behind."""
from pyvc.spec import *
from pyvc.vals import ObjV, PathEnd
from pyvc import solve

EXPLAIN = 'LLVMBuilder.load_arguments, load_global_arguments, store_variable, load_model_variable, _create_target_pointer, _get_target_pointers, _load_args, ' \
          '_store_to_global_target, add_mapping, add_call, add_set_call (one by one, and as a loop in the emitted code), _build_var_r, _build_var_w and the parts of __init__ and generate that emit instructions, against contracts on the memory the emitted code leaves.'
ASSUME = ['llvmlite\'s builder emits the instruction it is asked for at the end of the block it stands in, and blocks run in the order of their branches',
          'gep, load, store, fadd and call mean what LLVM says; a called function writes only through the addresses it is given',
          'states are no targets of mappings and calls; globals are listed in the order of their slots (the model lists them so: run bounded)',
          'LLVM optimisation and code generation and ctypes: run bounded',
          'a counted loop of the emitted code runs its body once for each value of its counter; the local counter is no model variable', 'floating-point values treated as reals']
L = 'numerous.engine.model.lowering.llvm_builder:LLVMBuilder'


def build(reg):
    VA = TRef('VArg')
    reg.refs['VArg'] = RefClass(dict(name=Str, is_global_var=Bool), construct=False)
    for n, t in dict(REG=Int, OFF=Int, IDX=Int, VAL=Real, BLK=Int, SRC=Int, LESSL=Int, LESSR=Int).items():
        reg.fn(n, [('n', None)], None, lambda v, x, n=n, t=t: value_of(v, x, n, t))

    def value_of(v, x, n, t):
        x = v.settle(x)
        if isinstance(x, ObjV) and n == 'IDX' and v.st.objs[x.addr][0] == 'IRPhi':
            return v.getattr(x, 'idx')
        return SV(t, z3.Function('app_' + n, NodeSort, t.sort)(v.scalar(x, NodeT)))
    reg.fn('SIDX', [('n', Str)], Int, "app('SIDX', Int, n)")
    reg.fn('SUMR', [('x', TArr(Real)), ('k', Int)], Real, '0 if k<=0 else SUMR(x,k-1)+x[k-1]', rec=True)
    IRB = TObj('IRB', block=NodeT, tail=NodeT, defer=NodeT, mem=TArr(Real), y=TArr(Real), g=TArr(Real), dv=TArr(Real), dset=TArr(Bool), dval=TArr(Real), cfn=NodeT,
               cargs=TList(NodeT), ncalls=Int, rv=NodeT)
    B = TObj('LLVMBuilder', builder=IRB, values=TDict(Str, NodeT), variable_names=TDict(Str, Int), global_names=TDict(Str, Int), states=TList(Str), derivatives=TList(Str),
             index0=NodeT, model_variables=NodeT, global_variables=NodeT, deriv_global=NodeT, func=TObj('IRFunc', args=TList(NodeT)), bb_entry=NodeT, bb_loop=NodeT,
             bb_store=NodeT, bb_exit=NodeT, ext_funcs=TDict(Str, NodeT))
    reg.classes['LLVMBuilder'] = L
    reg.fields[('LLVMBuilder', 'values')] = TDict(Str, NodeT)
    # LLVM
    reg.external('llvmlite.ir.IntType', names=['bits'], ret=TObj('IRInt'))
    reg.external('IRInt.__call__', names=['self', 'k'], ret=NodeT, ensures=['IDX(result)==k'])
    reg.external('IRB.position_at_end', names=['self', 'block'], modifies=['self.block'], ensures=['self.block==block'])
    AT = [('at-the-end-of-the-running-code', 'self.block==self.tail or self.block==self.defer')]
    IN = 'old(self.block)==old(self.tail)'
    reg.external('IRB.branch', names=['self', 'to'], requires=[('at-the-end-of-the-running-code', 'self.block==self.tail')], modifies=['self.tail', 'self.mem'],
                 ensures=['self.tail==to', 'forall(lambda j: self.mem[j]==(self.dval[j] if to==self.defer and self.dset[j] else old(self.mem)[j]), T="Int", pat=self.mem[j])'])
    reg.external('IRB.gep', names=['self', 'ptr', 'indices', 'name'], ret=NodeT, requires=AT + [('index-path', 'len(indices)==1 or len(indices)==2 and IDX(indices[0])==0')],
                 ensures=['REG(result)==REG(ptr) and OFF(result)==IDX(indices[len(indices)-1])'])
    reg.external('IRB.load', names=['self', 'ptr', 'name'], ret=NodeT, requires=AT + [('from-an-address', '0<=REG(ptr) and REG(ptr)<=3')],
                 ensures=['REG(result)==-1', 'implies(REG(ptr)==1, VAL(result)==self.y[OFF(ptr)])', 'implies(REG(ptr)==2, VAL(result)==self.g[OFF(ptr)])',
                          'implies(self.block==self.tail and REG(ptr)==0, VAL(result)==self.mem[OFF(ptr)])', 'implies(self.block==self.tail and REG(ptr)==3, VAL(result)==self.dv[OFF(ptr)])'])
    w = lambda a, reg_: 'forall(lambda j: self.%s[j]==(VAL(value) if %s and REG(ptr)==%d and OFF(ptr)==j else old(self.%s)[j]), T="Int", pat=self.%s[j])' % (a, IN, reg_, a, a)
    reg.external('IRB.store', names=['self', 'value', 'ptr'], modifies=['self.mem', 'self.y', 'self.g', 'self.dv', 'self.dset', 'self.dval'],
                 requires=AT + [('to-an-address', '0<=REG(ptr) and REG(ptr)<=3'), ('later-only-slots', 'implies(self.block!=self.tail, REG(ptr)==0)')],
                 ensures=[w('mem', 0), w('y', 1), w('g', 2), w('dv', 3),
                          'forall(lambda j: self.dset[j]==(old(self.dset)[j] or not (%s) and OFF(ptr)==j), T="Int", pat=self.dset[j])' % IN,
                          'forall(lambda j: self.dval[j]==(VAL(value) if not (%s) and OFF(ptr)==j else old(self.dval)[j]), T="Int", pat=self.dval[j])' % IN])
    reg.external('IRB.fadd', names=['self', 'a', 'b'], ret=NodeT, requires=AT, ensures=['REG(result)==-1 and VAL(result)==VAL(a)+VAL(b)'])
    keep = lambda a, r: 'forall(lambda j: implies(all(not (REG(args[q])==%d and OFF(args[q])==j) for q in range(len(args))), self.%s[j]==old(self.%s)[j]), T="Int", pat=self.%s[j])' % (r, a, a, a)
    reg.external('IRB.call', names=['self', 'fn', 'args'], modifies=['self.mem', 'self.y', 'self.g', 'self.cfn', 'self.cargs', 'self.ncalls'],
                 requires=[('at-the-end-of-the-running-code', 'self.block==self.tail')],
                 ensures=['self.cfn==fn and self.ncalls==old(self.ncalls)+1 and len(self.cargs)==len(args) and all(self.cargs[q]==args[q] for q in range(len(args)))',
                          keep('mem', 0), keep('y', 1), keep('g', 2)])
    reg.external('IRB.ret', names=['self', 'value'], modifies=['self.rv'], requires=[('at-the-end-of-the-running-code', 'self.block==self.tail')], ensures=['self.rv==value'])
    # the builder
    isst = '(0<=SIDX({n}) and SIDX({n})<len(self.states) and self.states[SIDX({n})]=={n})'
    at = 'REG(self.values[{n}])==({r}) and OFF(self.values[{n}])==({o})'
    place = at.format(n='{n}', r='1 if %s else (2 if {n} in self.global_names else 0)' % isst, o='SIDX({n}) if %s else (self.global_names[{n}] if {n} in self.global_names else self.variable_names[{n}])' % isst)
    BASE = [('states-are-distinct', 'all(SIDX(self.states[i])==i for i in range(len(self.states)))'),
            ('states-have-slots', 'all(self.states[i] in self.variable_names and not (self.states[i] in self.global_names) for i in range(len(self.states)))'),
            ('slots-are-distinct', 'all(implies(self.variable_names[a]==self.variable_names[b], a==b) for a in self.variable_names for b in self.variable_names)'),
            ('memory-regions', 'REG(self.model_variables)==0 and REG(self.deriv_global)==3 and len(self.func.args)==2 and REG(self.func.args[0])==1 and REG(self.func.args[1])==2 and IDX(self.index0)==0'),
            ('blocks-are-distinct', 'self.bb_store!=self.bb_entry and self.bb_store!=self.bb_loop and self.bb_store!=self.bb_exit and self.builder.defer==self.bb_store')]
    INV = BASE + [('every-name-at-its-own-place', 'all(%s and (n in self.global_names or n in self.variable_names) for n in self.values)' % place.format(n='n')),
                  ('states-and-globals-are-placed', 'all(self.states[i] in self.values for i in range(len(self.states))) and all(n in self.values for n in self.global_names)')]
    SAME = 'all(self.builder.mem[self.variable_names[self.states[i]]]==self.builder.y[i] for i in range(len(self.states)))'
    LATER = 'all(self.builder.dset[self.variable_names[self.states[i]]] and self.builder.dval[self.variable_names[self.states[i]]]==self.builder.y[i] for i in range(len(self.states))) and ' \
            'forall(lambda j: implies(all(self.variable_names[self.states[i]]!=j for i in range(len(self.states))), not self.builder.dset[j]), T="Int", pat=self.builder.dset[j])'
    SYNC = [('slots-hold-the-states', SAME), ('states-are-stored-at-the-end', LATER)]
    NOW = [('standing-in-the-main-code', 'self.builder.tail==self.bb_loop')]
    kept = lambda x: 'all(n in self.values and self.values[n]==old(self.values)[n] for n in old(self.values))'
    one = '(n=={0} or n in old(self.values))'
    grow = lambda n: [('only-that-name-is-placed', 'all(implies(n!={0}, n in old(self.values) and self.values[n]==old(self.values)[n]) for n in self.values) and all(n in self.values for n in old(self.values))'.format(n))]
    sl = lambda f, *p: reg.contract(L + '.' + f, params=dict(self=B, **dict(p)), modifies=['self.values'],
                                    requires=BASE[3:4] + [('known', 'variable_name in self.variable_names' if f[0] == 'l' else 'target_name in self.variable_names'), ('in-running-code', 'self.builder.block==self.builder.tail')],
                                    ensures=grow(p[0][0]) + [('at-its-slot', '{n} in self.values and REG(self.values[{n}])==0 and OFF(self.values[{n}])==self.variable_names[{n}]'.format(n=p[0][0]))])
    sl('load_model_variable', ('variable_name', Str))
    sl('_create_target_pointer', ('target_name', Str))
    here = ('in-running-code', 'self.builder.block==self.builder.tail')
    reg.contract(L + '.load_arguments', params=dict(self=B, idx=Int, state_name=Str, arg_idx=Int), modifies=['self.values'], requires=BASE[3:4] + [here, ('argument', 'arg_idx==0 or arg_idx==1')],
                 ensures=grow('state_name') + [('at-its-position', 'state_name in self.values and REG(self.values[state_name])==arg_idx+1 and OFF(self.values[state_name])==idx')])
    reg.contract(L + '.load_global_arguments', params=dict(self=B, idx=Int, global_arg_name=Str, arg_idx=Int), modifies=['self.values', 'self.builder.g', 'self.builder.y', 'self.builder.mem', 'self.builder.dv', 'self.builder.dset', 'self.builder.dval'],
                 requires=BASE[3:4] + [here, ('argument', 'arg_idx==0 or arg_idx==1')],
                 ensures=grow('global_arg_name') + [('at-its-position', 'global_arg_name in self.values and REG(self.values[global_arg_name])==arg_idx+1 and OFF(self.values[global_arg_name])==idx'),
                          ('nothing-changes', ' and '.join('forall(lambda j: self.builder.{0}[j]==old(self.builder.{0})[j], T="Int", pat=self.builder.{0}[j])'.format(a) for a in ('mem', 'y', 'g', 'dv', 'dset', 'dval')))])
    reg.contract(L + '.store_variable', params=dict(self=B, variable_name=Str, block=NodeT), modifies=['self.builder.mem', 'self.builder.dset', 'self.builder.dval', 'self.builder.y', 'self.builder.g', 'self.builder.dv'],
                 requires=BASE[3:4] + [('known', 'variable_name in self.variable_names and variable_name in self.values'), ('a-state', 'REG(self.values[variable_name])==1'),
                                       ('now-or-later', 'self.builder.block==self.builder.tail and (block==self.builder.tail or block==self.builder.defer)')],
                 ensures=[('stored-now', 'forall(lambda j: self.builder.mem[j]==(self.builder.y[OFF(self.values[variable_name])] if block==self.builder.tail and j==self.variable_names[variable_name] else old(self.builder.mem)[j]), T="Int", pat=self.builder.mem[j])'),
                          ('or-stored-later', 'forall(lambda j: self.builder.dset[j]==(old(self.builder.dset)[j] or block!=self.builder.tail and j==self.variable_names[variable_name]), T="Int", pat=self.builder.dset[j]) and '
                           'forall(lambda j: self.builder.dval[j]==(self.builder.y[OFF(self.values[variable_name])] if block!=self.builder.tail and j==self.variable_names[variable_name] else old(self.builder.dval)[j]), T="Int", pat=self.builder.dval[j])'),
                          ('nothing-else', ' and '.join('forall(lambda j: self.builder.{0}[j]==old(self.builder.{0})[j], T="Int", pat=self.builder.{0}[j])'.format(a) for a in ('y', 'g', 'dv')))])
    reg.contract(L + '._get_target_pointers', params=dict(self=B, targets=TList(Str)), ret=TList(NodeT), requires=[('placed', 'all(n in self.values for n in targets)')],
                 ensures=[('their-addresses', 'len(result)==len(targets) and all(result[q]==self.values[targets[q]] for q in range(len(targets)))')], inline=True)
    known = 'implies(not {a}.is_global_var, {a}.name in self.variable_names and not ({a}.name in self.global_names)) and implies({a}.is_global_var, {a}.name in self.global_names and not %s)' % isst.format(n='{a}.name')
    cur = '(self.builder.g[self.global_names[{a}.name]] if {a}.is_global_var else self.builder.mem[self.variable_names[{a}.name]])'
    reg.contract(L + '._load_args', params=dict(self=B, args=TList(VA)), ret=TList(NodeT), modifies=['self.values', 'self.builder.block'], locals=dict(loaded_args=TList(NodeT)),
                 requires=INV + SYNC + NOW + [('names-known', 'all(%s for a in args)' % known.format(a='a'))],
                 ensures=INV[5:] + [('their-values', 'len(result)==len(args) and all(REG(result[q])==-1 and VAL(result[q])==%s for q in range(len(args)))' % cur.format(a='args[q]')),
                                    ('nothing-unplaced', 'all(n in self.values for n in old(self.values))'), ('in-the-main-code', 'self.builder.block==self.bb_loop')],
                 loops=[LoopSpec([INV[5][1], INV[6][1], 'self.builder.block==self.bb_loop', 'all(n in self.values for n in old(self.values))',
                                  'len(loaded_args)==_k and all(REG(loaded_args[q])==-1 and VAL(loaded_args[q])==%s for q in range(_k))' % cur.format(a='args[q]')])])
    MEMS = ['self.builder.mem', 'self.builder.y', 'self.builder.g', 'self.builder.dv', 'self.builder.dset', 'self.builder.dval']
    same = lambda *xs: ' and '.join('forall(lambda j: self.builder.{0}[j]==old(self.builder.{0})[j], T="Int", pat=self.builder.{0}[j])'.format(a) for a in xs)
    tgt = '{n} in self.variable_names and not ({n} in self.global_names) and not %s' % isst.format(n='{n}')
    reg.contract(L + '._store_to_global_target', params=dict(self=B, target=Str, value=NodeT), modifies=['self.values'] + MEMS,
                 requires=INV + [('no-state', tgt.format(n='target')), here],
                 ensures=INV[5:] + [('stored-in-its-slot', 'forall(lambda j: self.builder.mem[j]==(VAL(value) if j==self.variable_names[target] else old(self.builder.mem)[j]), T="Int", pat=self.builder.mem[j])'),
                                    ('nothing-else', same('y', 'g', 'dv', 'dset', 'dval')), ('nothing-unplaced', 'all(n in self.values for n in old(self.values))')])
    reg.fn('CURS', [('s', None), ('m', None), ('g', None), ('args', None)], None, lambda v, s, m, g, args: LazyArr(Real, (iz(v.seq_of(args).n),), lambda j: cur_of(v, s, m, g, args, j)))

    def cur_of(v, s, m, g, args, j):
        a = v.getitem(args, mk(Int, iz(j)))
        n = v.getattr(a, 'name')
        return v.merge(v.scalar(v.getattr(a, 'is_global_var'), Bool), v.getitem(g, v.getitem(v.getattr(s, 'global_names'), n)), v.getitem(m, v.getitem(v.getattr(s, 'variable_names'), n)))
    reg.fn('VALS', [('x', None)], None, lambda v, x: LazyArr(Real, (iz(v.seq_of(x).n),), lambda j: SV(Real, z3.Function('app_VAL', NodeSort, z3.RealSort())(v.scalar(v.getitem(x, mk(Int, iz(j))), NodeT)))))
    reg.lemma('sumr_same', [('x', TArr(Real)), ('y', TArr(Real)), ('k', Int)], induct='k', requires=['0<=k', 'all(y[j]==x[j] for j in range(k))'], ensures=['SUMR(x,k)==SUMR(y,k)'])
    total = 'SUMR(CURS(self, old(self.builder.mem), self.builder.g, args), len(args))'
    istgt = 'exists_'
    notr = 'all(self.variable_names[targets[t].name]!=j for t in range(%s))'
    step = ['forall(lambda j: implies(%s, self.builder.mem[j]==old(self.builder.mem)[j]), T="Int", pat=self.builder.mem[j])' % (notr % '_k'),
            'all(self.builder.mem[self.variable_names[targets[t].name]]==%s for t in range(_k))' % total, same('y', 'g', 'dv', 'dset', 'dval'), INV[5][1], INV[6][1],
            'self.builder.block==self.bb_loop']
    acc = 'VAL(accum)==SUMR(VALS(loaded_args_ptr), _a+2)'
    eq = 'use(sumr_same(VALS(loaded_args_ptr), CURS(self, self.builder.mem, self.builder.g, args), len(args)))\ncheck(VAL({x})==SUMR(CURS(self, self.builder.mem, self.builder.g, args), len(args)))'
    reg.contract(L + '.add_mapping', params=dict(self=B, args=TList(VA), targets=TList(VA)), modifies=['self.values', 'self.builder.block'] + MEMS,
                 requires=INV + SYNC + NOW + [('something-to-assign', 'len(args)>0'), ('sources-known', 'all(%s for a in args)' % known.format(a='a')),
                                              ('targets-known', 'all(%s for t in targets)' % tgt.format(n='t.name'))],
                 ensures=INV[5:] + SYNC + NOW + [('every-target-gets-the-sum', 'all(self.builder.mem[self.variable_names[targets[t].name]]==%s for t in range(len(targets)))' % total),
                                                 ('no-other-slot', 'forall(lambda j: implies(%s, self.builder.mem[j]==old(self.builder.mem)[j]), T="Int", pat=self.builder.mem[j])' % (notr % 'len(targets)')),
                                                 ('nothing-else', same('y', 'g', 'dv', 'dset', 'dval'))],
                 loops=[LoopSpec(step, use_init=eq.format(x='loaded_args_ptr[0]')),
                        LoopSpec([acc], index='_a', use_end=eq.format(x='accum')), LoopSpec(step)])
    # calls
    argok = 'REG({p})==0 and OFF({p})==self.variable_names[{a}.name] if {q} in target_ids else REG({p})==-1 and VAL({p})=={c}'
    reg.contract(L + '.add_call', params=dict(self=B, external_function_name=Str, args=TList(VA), target_ids=TList(Int)), locals=dict(arg_pointers=TList(NodeT)),
                 modifies=['self.values', 'self.builder.block', 'self.builder.cfn', 'self.builder.cargs', 'self.builder.ncalls'] + MEMS[:3],
                 requires=INV + SYNC + NOW + [('function-known', 'external_function_name in self.ext_funcs'), ('names-known', 'all(%s for a in args)' % known.format(a='a')),
                                              ('targets-known', 'all(implies(q in target_ids, not args[q].is_global_var and %s) for q in range(len(args)))' % tgt.format(n='args[q].name'))],
                 ensures=INV[5:] + SYNC + NOW + [('calls-that-function-once', 'self.builder.ncalls==old(self.builder.ncalls)+1 and self.builder.cfn==self.ext_funcs[external_function_name]'),
                          ('every-argument-in-order', 'len(self.builder.cargs)==len(args) and all(%s for q in range(len(args)))' % argok.format(p='self.builder.cargs[q]', a='args[q]', q='q', c=cur.format(a='args[q]').replace('self.builder.mem', 'old(self.builder.mem)').replace('self.builder.g[', 'old(self.builder.g)['))),
                          ('only-targets-change', 'forall(lambda j: implies(all(not (q in target_ids and self.variable_names[args[q].name]==j) for q in range(len(args))), self.builder.mem[j]==old(self.builder.mem)[j]), T="Int", pat=self.builder.mem[j])'),
                          ('nothing-else', same('y', 'g', 'dv', 'dset', 'dval'))],
                 loops=[LoopSpec([INV[5][1], INV[6][1], 'self.builder.block==self.bb_loop',
                                  'len(arg_pointers)==_k and all(%s for q in range(_k))' % argok.format(p='arg_pointers[q]', a='args[q]', q='q', c=cur.format(a='args[q]'))])])
    # construction and completion of the kernel
    inst = isst.format(n='n')
    KA = 'keyat(self.global_names,{0})'
    glob = 'all(%s in self.values for i in range({0}))' % KA.format('i')
    pl2 = 'all((%s and REG(self.values[n])==1 and OFF(self.values[n])==SIDX(n)) or (n in self.global_names and not %s and posof(self.global_names,n)<{0} and REG(self.values[n])==2 and OFF(self.values[n])==self.global_names[n]) for n in self.values)' % (inst, inst)
    unch = same(*[a.split('.')[-1] for a in MEMS])
    reg.contract(L + '.__init__', params=dict(self=B, initial_values=TArr(Real), variable_names=TDict(Str, Int), global_names=TDict(Str, Int), states=TList(Str), derivatives=TList(Str), system_tag=Str),
                 part=(r'self\.values = ', None), modifies=['self.values', 'self.builder.block', 'self.builder.tail'] + MEMS,
                 requires=BASE + [('a-new-kernel', 'self.builder.block==self.bb_entry and self.builder.tail==self.bb_entry and forall(lambda j: not self.builder.dset[j], T="Int", pat=self.builder.dset[j])'),
                                  ('globals-in-slot-order', 'all(self.global_names[%s]==i for i in range(len(self.global_names)))' % KA.format('i'))],
                 ensures=INV[5:] + SYNC + NOW + [('every-other-slot-kept', 'forall(lambda j: implies(all(self.variable_names[self.states[i]]!=j for i in range(len(self.states))), self.builder.mem[j]==old(self.builder.mem)[j]), T="Int", pat=self.builder.mem[j])'),
                                                 ('arguments-are-not-written', same('y', 'g', 'dv'))],
                 loops=[LoopSpec(['all(%s and SIDX(n)<_k and REG(self.values[n])==1 and OFF(self.values[n])==SIDX(n) for n in self.values)' % inst, 'all(self.states[i] in self.values for i in range(_k))', 'self.builder.block==self.bb_entry']),
                        LoopSpec([pl2.format('_k'), 'all(self.states[i] in self.values for i in range(len(self.states)))', glob.format('_k'), 'self.builder.block==self.bb_entry', unch]),
                        LoopSpec(['self.builder.block==self.bb_entry', SAME.replace('len(self.states)', '_k'), LATER.replace('len(self.states)', '_k'), same('y', 'g', 'dv'),
                                  'forall(lambda j: implies(all(self.variable_names[self.states[i]]!=j for i in range(_k)), self.builder.mem[j]==old(self.builder.mem)[j]), T="Int", pat=self.builder.mem[j])'])])
    dslot = 'self.builder.mem[self.variable_names[self.derivatives[i]]]'
    reg.contract(L + '.generate', params=dict(self=B, imports=TAny(), system_tag=TAny(), save_to_file=Bool), part=(None, r'self\._build_var_r'),
                 modifies=['self.values', 'self.builder.block', 'self.builder.tail', 'self.builder.rv'] + MEMS,
                 requires=INV + SYNC + NOW + [('derivatives-known', 'all(%s for d in self.derivatives)' % tgt.format(n='d'))],
                 ensures=[('derivative-at-its-own-position', 'all(self.builder.dv[i]==%s for i in range(len(self.derivatives)))' % dslot), ('no-slot-changes', same('mem', 'y', 'g')),
                          ('returns-the-derivatives', 'REG(self.builder.rv)==3 and OFF(self.builder.rv)==0'), ('every-slot-holds-its-state', SAME)],
                 loops=[LoopSpec([INV[5][1], INV[6][1], 'self.builder.block==self.bb_exit', same('mem', 'y', 'g'), 'all(self.builder.dv[i]==%s for i in range(_k))' % dslot])])

    # reading and writing the slots from outside
    for k in ('nblocks', 'fname'):
        reg.fields[('IRFunc', k)] = Int if k == 'nblocks' else Str
    FN = TObj('IRFunc', args=TList(NodeT), nblocks=Int, fname=Str)
    reg.refs['FTArg'] = RefClass(dict(name=Str), construct=False)
    reg.external('llvmlite.ir.DoubleType', names=[], ret=TObj('IRDouble'))
    reg.external('llvmlite.ir.VoidType', names=[], ret=TObj('IRVoid'))
    reg.external('IRDouble.as_pointer', names=['self'], ret=TObj('IRPtr'))
    for n in ('VARG0',):
        reg.fn(n, [], Real, "app('VARG0', Real)")
    reg.fn('VARG1', [], Int, "app('VARG1', Int)")
    reg.fn('FIRST', [], NodeT, "app('FIRST', Node)")

    reg.external('llvmlite.ir.FunctionType', names=['ret', 'args'], ret=TObj('IRFT', args=TList(TRef('FTArg')), n=Int), ensures=['len(result.args)==len(args) and result.n==len(args)'])
    reg.external('llvmlite.ir.Function', names=['module', 'ftype', 'name'], ret=FN,
                 ensures=['len(result.args)==ftype.n and result.nblocks==0 and result.fname==name', 'implies(ftype.n==2, REG(result.args[0])==-1 and VAL(result.args[0])==VARG0() and IDX(result.args[1])==VARG1())'])
    reg.external('IRFunc.append_basic_block', names=['self', 'name'], ret=NodeT, modifies=['self.nblocks'],
                 ensures=['self.nblocks==old(self.nblocks)+1', '(result==FIRST())==(old(self.nblocks)==0)'])
    reg.external('IRB.ret_void', names=['self'], modifies=['self.rv'], requires=[('at-the-end-of-the-running-code', 'self.block==self.tail')], ensures=['self.rv==FIRST()'])
    reg.external('llvmlite.ir.IRBuilder', names=[], ret=None, effect=lambda v, env: v.getattr(v.st.frames[v.callstack[-1].fid]['self'], 'outer'))
    O = TObj('LLVMBuilder', outer=IRB, index0=NodeT, model_variables=NodeT, module=TAny())
    OM = ['self.outer.' + x for x in ('block', 'tail', 'rv', 'mem', 'y', 'g', 'dv', 'dset', 'dval')]
    osame = lambda *xs: ' and '.join('forall(lambda j: self.outer.{0}[j]==old(self.outer.{0})[j], T="Int", pat=self.outer.{0}[j])'.format(a) for a in xs)
    new = [('the-kernel-variables', 'REG(self.model_variables)==0 and IDX(self.index0)==0'), ('starts-in-the-first-block', 'self.outer.tail==FIRST() and self.outer.defer!=self.outer.tail'),
           ('nothing-deferred', 'forall(lambda j: not self.outer.dset[j], T="Int", pat=self.outer.dset[j])')]
    reg.contract(L + '._build_var_w', params=dict(self=O), modifies=OM + ['FTArg.name'], requires=new,
                 ensures=[('writes-that-slot', 'forall(lambda j: self.outer.mem[j]==(VARG0() if j==VARG1() else old(self.outer.mem)[j]), T="Int", pat=self.outer.mem[j])'), ('nothing-else', osame('y', 'g', 'dv')),
                          ('returns', 'self.outer.rv==FIRST()')])
    reg.contract(L + '._build_var_r', params=dict(self=O), modifies=OM, requires=new,
                 ensures=[('address-of-the-first-slot', 'REG(self.outer.rv)==0 and OFF(self.outer.rv)==0'), ('changes-nothing', osame('mem', 'y', 'g', 'dv'))])

    # a call for every element of a set: next to each other in a loop, otherwise one by one
    from pyvc.types import StrSort
    from pyvc.vals import ExtObj
    VARG = z3.Function('VARG', StrSort, z3.BoolSort(), z3.IntSort())
    reg.fn('VARG', [('n', None), ('g', None)], None, lambda v, n, g: SV(VA, VARG(v.scalar(n, Str), v.scalar(g, Bool))))
    reg.external('VariableArgument', names=['name', 'is_global_var'], ret=VA, returns='VARG(name, is_global_var)')
    reg.globals[('numerous.engine.model.lowering.utils', 'VariableArgument')] = ExtObj(reg.externals['VariableArgument'])
    NM = 'variable_name_arg_and_trg'
    n, w = 'len(%s)' % NM, 'len(%s[0])' % NM
    FOLLOW = 'all(self.variable_names[{0}[e][p]]==self.variable_names[{0}[0][0]]+e*{1}+p for e in range({2}) for p in range({1}))'.format(NM, w, n)
    fields = ('fields-of-a-new-argument', 'forall(lambda n, g: VARG(n, g).name==n and iff(VARG(n, g).is_global_var, g), T="Str Bool", pat=VARG(n, g))')
    SET = [('elements-of-one-size', '%s>0 and %s>0 and all(len(%s[e])==%s for e in range(%s))' % (n, w, NM, w, n)),
           ('names-known', 'all({0}[e][p] in self.variable_names and not ({0}[e][p] in self.global_names) for e in range({1}) for p in range({2}))'.format(NM, n, w)),
           ('targets-known', 'all(0<=targets_ids[q] and targets_ids[q]<%s for q in range(len(targets_ids))) and all(implies(p in targets_ids, %s) for e in range(%s) for p in range(%s))' % (w, tgt.format(n='%s[e][p]' % NM), n, w)),
           ('function-known', 'external_function_name in self.ext_funcs')]
    row = '%s[_k]' % NM
    argset = 'REG({p})==0 and OFF({p})==self.variable_names[{a}] if {q} in targets_ids else REG({p})==-1 and VAL({p})=={c}'
    cargs = 'self.builder.cargs[q]'
    written = 'all(implies(p in targets_ids, self.variable_names[%s[e][p]]!=j) for e in range(%s) for p in range(%s))'
    frame = lambda k: 'forall(lambda j: implies(%s, self.builder.mem[j]==old(self.builder.mem)[j]), T="Int", pat=self.builder.mem[j])' % (written % (NM, k, w))
    reg.contract(L + '.add_set_call#apart', params=dict(self=B, external_function_name=Str, variable_name_arg_and_trg=TList(TList(Str)), targets_ids=TList(Int)),
                 modifies=['self.values', 'self.builder.block', 'self.builder.cfn', 'self.builder.cargs', 'self.builder.ncalls'] + MEMS[:3],
                 requires=INV + SYNC + NOW + SET + [fields, ('apart', 'not (%s)' % FOLLOW)],
                 ensures=INV[5:] + SYNC + NOW + [('one-call-for-each-element', 'self.builder.ncalls==old(self.builder.ncalls)+%s' % n), ('only-targets-change', frame(n))],
                 loops=[LoopSpec([x for a, x in INV[5:] + SYNC + NOW] + ['self.builder.ncalls==old(self.builder.ncalls)+_k', frame('_k'), same('y', 'g', 'dv', 'dset', 'dval')], use_start='m0 = self.builder.mem',
                                 step='check(self.builder.cfn==self.ext_funcs[external_function_name], "that-function"); check(len(self.builder.cargs)==len(%s) and all(%s for q in range(len(%s))), "every-argument-in-order")' %
                                 (row, argset.format(p=cargs, a=row + '[q]', q='q', c='m0[self.variable_names[%s[q]]]' % row), row))])
    # what the emitted loop does when it runs: COUNT and CELL are the header's counter and the local counter at its k-th entry
    reg.fn('COUNT', [('k', Int)], Int, '0 if k<=0 else COUNT(k-1)+1', rec=True)
    reg.fn('CELL', [('s', Int), ('w', Int), ('k', Int)], Int, 's-1 if k<=0 else CELL(s,w,k-1)+w', rec=True)
    reg.lemma('body_meets_element', [('s', Int), ('w', Int), ('n', Int), ('k', Int)], induct='k', requires=['0<=k', 'k<=n'], ensures=['CELL(s,w,k)==s-1+k*w', 'COUNT(k)==k', 'iff(COUNT(k)<n, k<n)'])
    # the loop: a header that counts, a body that moves on by one element, each block with its end
    PHI = TObj('IRPhi', idx=Int, inc=TArr(Int), has=TArr(Bool))
    IRL = TObj('IRL', block=NodeT, tail=NodeT, cell=Int, bcell=Int, bid=Int, nalloca=Int, ncalls=Int, cfn=NodeT, cargs=TList(NodeT), succ=TArr(Int), ended=TArr(Bool), yes=TArr(Int), no=TArr(Int),
               cl=TArr(Int), cr=TArr(Int), phi0=PHI, pblk=Int)
    LFN = TObj('IRLFunc', nb=Int)
    B2 = TObj('LLVMBuilderT', builder=IRL, values=TDict(Str, NodeT), variable_names=TDict(Str, Int), global_names=TDict(Str, Int), index0=NodeT, model_variables=NodeT, func=LFN, bb_loop=NodeT,
              ext_funcs=TDict(Str, NodeT), loopcount=Int)
    reg.external('IRLFunc.append_basic_block', names=['self', 'name'], ret=NodeT, modifies=['self.nb'], ensures=['BLK(result)==old(self.nb) and self.nb==old(self.nb)+1'])
    reg.external('IRL.position_at_end', names=['self', 'block'], modifies=['self.block'], ensures=['self.block==block'])
    open_ = ('block-is-not-ended', 'not self.ended[BLK(self.block)]')
    inbody = ('in-one-body', 'BLK(self.block)==BLK(self.tail) or self.bid==-1 or self.bid==BLK(self.block)')
    isbody = 'self.bid==(old(self.bid) if BLK(self.block)==BLK(self.tail) else BLK(self.block))'
    reg.external('IRL.alloca', names=['self', 'ty'], ret=NodeT, modifies=['self.nalloca'], requires=[open_, ('before-the-loop', 'BLK(self.block)==BLK(self.tail) and self.nalloca==0')], ensures=['REG(result)==4 and self.nalloca==1'])
    reg.external('IRL.store', names=['self', 'value', 'ptr'], modifies=['self.cell', 'self.bcell', 'self.bid'], requires=[open_, inbody, ('only-the-counter', 'REG(ptr)==4')],
                 ensures=[isbody, 'self.cell==(IDX(value) if BLK(self.block)==BLK(self.tail) else old(self.cell)) and self.bcell==(IDX(value) if BLK(self.block)!=BLK(self.tail) else old(self.bcell))'])
    reg.external('IRL.load', names=['self', 'ptr', 'name'], ret=NodeT, modifies=['self.bid'], requires=[open_, inbody, ('from-a-slot-or-the-counter', 'REG(ptr)==0 or REG(ptr)==4')],
                 ensures=[isbody, 'REG(result)==-1', 'implies(REG(ptr)==0, SRC(result)==OFF(ptr))', 'implies(REG(ptr)==4, IDX(result)==(self.cell if BLK(self.block)==BLK(self.tail) else self.bcell))'])
    reg.external('IRL.gep', names=['self', 'ptr', 'indices', 'name'], ret=NodeT, requires=[open_, ('index-path', 'len(indices)==2 and IDX(indices[0])==0')],
                 ensures=['REG(result)==REG(ptr) and OFF(result)==IDX(indices[1])'])
    reg.external('IRL.add', names=['self', 'a', 'b', 'name'], ret=NodeT, requires=[open_], ensures=['IDX(result)==IDX(a)+IDX(b)'])
    reg.external('IRL.phi', names=['self', 'ty', 'name'], modifies=['self.pblk'], requires=[open_, ('only-one', 'self.pblk==-1')], ensures=['self.pblk==BLK(self.block)'],
                 ret=None, effect=lambda v, env: (v.setattr(env['self'], 'pblk', v.spec_fn(v.reg.specfns['BLK'], [v.getattr(env['self'], 'block')])), v.getattr(env['self'], 'phi0'))[1])
    reg.external('IRPhi.add_incoming', names=['self', 'value', 'block'], modifies=['self.inc', 'self.has'],
                 ensures=['forall(lambda j: self.inc[j]==(IDX(value) if j==BLK(block) else old(self.inc)[j]) and self.has[j]==(j==BLK(block) or old(self.has)[j]), T="Int", pat=self.inc[j])'])
    put = lambda f, x: 'forall(lambda j: self.%s[j]==(%s if j==BLK(self.block) else old(self.%s)[j]), T="Int", pat=self.%s[j])' % (f, x, f, f)
    reg.external('IRL.branch', names=['self', 'to'], modifies=['self.succ', 'self.ended'], requires=[open_], ensures=[put('succ', 'BLK(to)'), put('ended', 'True')])
    reg.external('IRL.icmp_unsigned', names=['self', 'op', 'a', 'b', 'name'], ret=NodeT, requires=[open_, ('less', 'op=="<"')], ensures=['LESSL(result)==IDX(a) and LESSR(result)==IDX(b)'])
    reg.external('IRL.cbranch', names=['self', 'cond', 'yes', 'no'], modifies=['self.yes', 'self.no', 'self.cl', 'self.cr', 'self.ended'], requires=[open_],
                 ensures=[put('yes', 'BLK(yes)'), put('no', 'BLK(no)'), put('cl', 'LESSL(cond)'), put('cr', 'LESSR(cond)'), put('ended', 'True')])
    reg.external('IRL.call', names=['self', 'fn', 'args'], modifies=['self.cfn', 'self.cargs', 'self.ncalls', 'self.bid'], requires=[open_, inbody, ('in-the-body', 'BLK(self.block)!=BLK(self.tail)')],
                 ensures=[isbody, 'self.cfn==fn and self.ncalls==old(self.ncalls)+1 and len(self.cargs)==len(args) and all(self.cargs[q]==args[q] for q in range(len(args)))'])

    def element_by_element(v, env):
        # the other way of doing it has a contract of its own; here it must be out of the question
        pc = [f for _, f in v.st.pc]
        if solve.check_once(pc, None, solve.context(pc, None, v.rec_axioms(), getattr(reg, 'smt_axioms', ())), {}, 10)[0] != z3.unsat:
            raise Unsupported('one by one although they are next to each other')
        raise PathEnd()
    reg.external('LLVMBuilderT.add_call', names=['self', 'external_function_name', 'args', 'target_ids'], effect=element_by_element)
    b = 'self.builder.'
    HD = b + 'succ[BLK(old(self.bb_loop))]'
    BD = b + 'yes[%s]' % HD
    INCB = b + 'succ[%s]' % BD
    el = '(REG({p})==0 and OFF({p})=={o} if {q} in targets_ids else REG({p})==-1 and SRC({p})=={o})'
    cell = 'old(self.builder.bcell)'
    reg.contract(L + '.add_set_call#together', params=dict(self=B2, external_function_name=Str, variable_name_arg_and_trg=TList(TList(Str)), targets_ids=TList(Int)), locals=dict(loaded_args=TList(NodeT), loaded_trgs=TList(NodeT)),
                 modifies=['self.loopcount', 'self.bb_loop', 'self.func.nb'] + [b + x for x in ('block', 'cell', 'bcell', 'bid', 'nalloca', 'ncalls', 'cfn', 'cargs', 'succ', 'ended', 'yes', 'no', 'cl', 'cr', 'pblk', 'phi0.inc', 'phi0.has')],
                 requires=[SET[0], ('names-known', 'all({0}[e][p] in self.variable_names for e in range({1}) for p in range({2}))'.format(NM, n, w)), SET[3], ('together', FOLLOW), fields,
                           ('the-kernel-variables', 'REG(self.model_variables)==0 and IDX(self.index0)==0'), ('running-code', 'BLK(self.bb_loop)==BLK(self.builder.tail) and BLK(self.bb_loop)>=0 and BLK(self.bb_loop)<self.func.nb and not self.builder.ended[BLK(self.bb_loop)]'),
                           ('new-blocks-are-open', 'forall(lambda j: implies(j>=self.func.nb, not self.builder.ended[j]), T="Int", pat=self.builder.ended[j])'),
                           ('no-loop-yet', 'self.builder.bid==-1 and self.builder.nalloca==0 and self.builder.pblk==-1 and forall(lambda j: not self.builder.phi0.has[j], T="Int", pat=self.builder.phi0.has[j])')],
                 ensures=[('header-counts', '{b}pblk=={h} and {b}cl[{h}]=={b}phi0.idx and {b}cr[{h}]=={n} and {b}phi0.has[BLK(old(self.bb_loop))] and {b}phi0.inc[BLK(old(self.bb_loop))]==0'.format(b=b, h=HD, n=n)),
                          ('one-by-one', '{b}succ[{i}]=={h} and {b}phi0.has[{i}] and {b}phi0.inc[{i}]=={b}phi0.idx+1'.format(b=b, h=HD, i=INCB)),
                          ('then-goes-on', '{b}no[{h}]==BLK(self.bb_loop) and not {b}ended[BLK(self.bb_loop)]'.format(b=b, h=HD)),
                          ('blocks-of-their-own', '{h}!=BLK(old(self.bb_loop)) and {d}!={h} and {i}!={h} and {i}!={d} and {d}!=BLK(old(self.bb_loop)) and {i}!=BLK(old(self.bb_loop)) and BLK(self.bb_loop)!={h} and BLK(self.bb_loop)!={d} and BLK(self.bb_loop)!={i}'.format(h=HD, d=BD, i=INCB)),
                          ('the-body', '{b}bid=={d} and {b}ncalls==old({b}ncalls)+1 and {b}cfn==self.ext_funcs[external_function_name]'.format(b=b, d=BD)),
                          ('starts-with-the-first-element', '{b}cell==self.variable_names[{m}[0][0]]-1'.format(b=b, m=NM)), ('moves-on-by-one-element', '{b}bcell=={c}+{w}'.format(b=b, c=cell, w=w)),
                          ('every-argument-in-order', 'len({b}cargs)=={w} and all({x} for q in range({w}))'.format(b=b, w=w, x=el.format(p='self.builder.cargs[q]', q='q', o=cell + '+1+q'))),
                          ('of-that-element', 'all(implies({c}==self.variable_names[{m}[0][0]]-1+e*{w}, all({x} for q in range({w}))) for e in range({n}))'.format(c=cell, m=NM, w=w, n=n, x=el.format(p='self.builder.cargs[q]', q='q', o='self.variable_names[%s[e][q]]' % NM)))],
                 loops=[LoopSpec([]), LoopSpec([b + 'cell==self.variable_names[%s[0][0]]-1' % NM, b + 'bcell==%s+_k' % cell, b + 'bid==(-1 if _k==0 else BLK(self.builder.block))', 'len(loaded_args)==_k and all(%s for q in range(_k))' % el.format(p='loaded_args[q]', q='q', o=cell + '+1+q')])])

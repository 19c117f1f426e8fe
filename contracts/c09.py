"""Which external column drives which variable."""
from pyvc.spec import *

EXPLAIN = 'ExternalMapping.is_mapped_var, add_df_idx and store_mappings against contracts for any number of tables, columns, ' \
          'paths and earlier associations.'
ASSUME = ['equality of python strings is equality of the names']
EM = 'numerous.engine.system.external_mappings.external_mappings:ExternalMapping'


def build(reg):
    reg.refs['Path'] = RefClass(dict(path=TDict(Str, TList(Str))), construct=False)
    reg.refs['Var'] = RefClass(dict(id=Str, path=TRef('Path'), global_var=Bool), construct=False)
    reg.enums['InterpolationType'] = 'numerous.engine.system.external_mappings.interpolation_type:InterpolationType'
    IT = TEnum('InterpolationType')
    E = TObj('ExternalMapping', external_columns=TList(TList(Str)), interpolation_type=TList(TList(IT)),
             external_df_idx=TList(TTuple(Int, Int)), interpolation_info=TList(Bool))
    reg.classes['ExternalMapping'] = EM
    P = 'variables[var_id].path.path[system_id]'
    KNOWN = [('known-variable', 'var_id in variables and implies(not variables[var_id].global_var, system_id in variables[var_id].path.path)')]
    NAMES = 'any(self.external_columns[i][c]=={P}[p] for i in range(%s) for c in range(len(self.external_columns[i])) for p in range(len({P})))'.format(P=P)
    no = 'not any(self.external_columns[i][c]==%s[p] for %s)'
    Pn = 'len(%s)' % P
    N, CC = 'len(self.external_columns)', 'len(self.external_columns[i])'
    pk = 'path_k'
    reg.contract(EM + '.is_mapped_var', params=dict(self=E, variables=TDict(Str, TRef('Var')), var_id=Str, system_id=Str), ret=TOpt(Bool),
                 requires=KNOWN,
                 ensures=[('mapped-exactly-when-named', 'iff(not isnone(result) and some(result), not variables[var_id].global_var and %s)' % (NAMES % N))],
                 loops=[LoopSpec(['not any(self.external_columns[i][c]==%s[p] for p in range(_p) for i in range(%s) for c in range(%s))' % (P, N, CC)], index='_p'),
                        LoopSpec(['not any(self.external_columns[i][c]==%s[_p_outer] for i in range(_i) for c in range(%s))' % (P, CC)], index='_i'),
                        LoopSpec(['not any(self.external_columns[_i_outer][c]==%s[_p_outer] for c in range(_c))' % P], index='_c')])
    WF = [('one-interpolation-per-column', 'len(self.interpolation_type)==len(self.external_columns) and all(len(self.interpolation_type[i])==%s for i in range(%s))' % (CC, N)),
          ('aligned-so-far', 'len(self.external_df_idx)==len(self.interpolation_info)')]
    new = 'self.external_df_idx[len(old(self.external_df_idx))]'
    SAME = 'len(self.external_df_idx)==len(old(self.external_df_idx)) and len(self.interpolation_info)==len(old(self.interpolation_info)) and all(self.external_df_idx[k]==old(self.external_df_idx)[k] and self.interpolation_info[k]==old(self.interpolation_info)[k] for k in range(len(old(self.external_df_idx))))'
    reg.contract(EM + '.add_df_idx', params=dict(self=E, variables=TDict(Str, TRef('Var')), var_id=Str, system_id=Str),
                 requires=WF + [('known-variable', 'var_id in variables and system_id in variables[var_id].path.path')],
                 modifies=['self.external_df_idx', 'self.interpolation_info'],
                 ensures=[('one-entry-when-named', 'implies(%s, len(self.external_df_idx)==len(old(self.external_df_idx))+1)' % (NAMES % N)),
                          ('none-otherwise', 'implies(not %s, len(self.external_df_idx)==len(old(self.external_df_idx)))' % (NAMES % N)),
                          ('its-own-column', 'implies(len(self.external_df_idx)>len(old(self.external_df_idx)), 0<={n}[0] and {n}[0]<{N} and 0<={n}[1] and '
                           '{n}[1]<len(self.external_columns[{n}[0]]) and any(self.external_columns[{n}[0]][{n}[1]]=={P}[p] for p in range(len({P}))))'.format(n=new, N=N, P=P)),
                          ('interpolation-of-that-column', 'implies(len(self.external_df_idx)>len(old(self.external_df_idx)), '
                           'iff(self.interpolation_info[len(old(self.external_df_idx))], self.interpolation_type[{n}[0]][{n}[1]]==InterpolationType.LINEAR))'.format(n=new)),
                          ('aligned', 'len(self.external_df_idx)==len(self.interpolation_info)'),
                          ('earlier-kept', 'all(self.external_df_idx[k]==old(self.external_df_idx)[k] and self.interpolation_info[k]==old(self.interpolation_info)[k] '
                           'for k in range(len(old(self.external_df_idx))))')],
                 loops=[LoopSpec([SAME, 'not any(self.external_columns[i][c]==%s[p] for i in range(_i) for c in range(%s) for p in range(%s))' % (P, CC, Pn)], index='_i'),
                        LoopSpec([SAME, 'not any(self.external_columns[_i_outer][c]==%s[p] for p in range(_p) for c in range(len(self.external_columns[_i_outer])))' % P], index='_p'),
                        LoopSpec([SAME, 'not any(self.external_columns[_i_outer][c]==%s[_p_outer] for c in range(_c))' % P], index='_c')])
    A = TObj('ExternalMapping', external_df_idx=TList(TTuple(Int, Int)), interpolation_info=TList(Bool))
    reg.contract(EM + '.store_mappings', params=dict(self=A),
                 requires=[('aligned', 'len(self.external_df_idx)==len(self.interpolation_info)')],
                 modifies=[('self.external_df_idx', TArr(Int, 2)), ('self.interpolation_info', TArr(Bool))],
                 ensures=[('same-associations', 'self.external_df_idx.shape[0]==len(old(self.external_df_idx)) and self.external_df_idx.shape[1]==2 and '
                           'all(self.external_df_idx[k,0]==old(self.external_df_idx)[k][0] and self.external_df_idx[k,1]==old(self.external_df_idx)[k][1] '
                           'for k in range(len(old(self.external_df_idx))))'),
                          ('same-interpolations', 'len(self.interpolation_info)==len(old(self.interpolation_info)) and '
                           'all(iff(self.interpolation_info[k], old(self.interpolation_info)[k]) for k in range(len(old(self.interpolation_info))))')])

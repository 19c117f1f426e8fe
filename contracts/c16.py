"""Names of variables, columns of the history table, lookup under any name."""
from pyvc.spec import *

EXPLAIN = 'The naming part of Model._assembly_tail (names, logged names, logged columns), Model._check_name, create_historian_dict, _generate_history_df and ' \
          'AliasedDataFrame (renaming, lookup of one name and of several) against contracts over any variables, levels and names.'
ASSUME = ['pandas.DataFrame(dict), frame[name], frame[[names]] and frame.get are library contracts: one column per key with the given values',
          'variables are kept under their own id; ids are not names', 'names of variables along a path are C15']
MD = 'numerous.engine.model.model:Model'
AD = 'numerous.engine.model.aliased_dataframe:AliasedDataFrame'


def build(reg):
    P = TRef('Path')
    reg.refs['Path'] = RefClass(dict(path=TDict(Str, TList(Str))), construct=False)
    reg.enums['LoggerLevel'] = 'numerous.utils.logger_levels:LoggerLevel'
    LL = TEnum('LoggerLevel')
    V = TRef('Var')
    reg.refs['Var'] = RefClass(dict(id=Str, temporary_variable=Bool, logger_level=TOpt(LL), path=P, alias=TOpt(Str)), construct=False)
    DV = TDict(Str, V)
    M = TObj('Model', variables=DV, vars_ordered_values=TDict(Str, Int), aliases=TDict(Str, Str), logged_aliases=TDict(Str, Str), inverse_aliases=TDict(Str, Str),
             inverse_logged_aliases=TDict(Str, TList(Str)), logged_variables=TDict(Str, Int), logger_level=LL, system=TObj('Sys', id=Str))
    reg.classes['Model'] = MD
    for f, t in (('logged_aliases', TDict(Str, Str)), ('inverse_aliases', TDict(Str, Str)), ('inverse_logged_aliases', TDict(Str, TList(Str))),
                 ('logged_variables', TDict(Str, Int))):
        reg.fields[('Model', f)] = t
    reg.fn('LEVEL', [('l', TOpt(LL))], Int, '0 if isnone(l) else some(l).value')
    DOM = [('kept-under-its-id', 'all(k==self.variables[k].id for k in self.variables)'),
           ('slots-of-variables', 'all(k in self.variables for k in self.vars_ordered_values)')]
    nm = '(self.system.id in {v}.path.path and any({v}.path.path[self.system.id][p]==n for p in range(len({v}.path.path[self.system.id]))) or {v}.alias==n)'

    # n names the variable v
    def N(v):
        return '(not {v}.temporary_variable and '.format(v=v) + nm.format(v=v) + ')'
    LOG = 'LEVEL({v}.logger_level)>=self.logger_level.value'
    AT = 'self.variables[self.{d}[n]]'

    def every(k, d='aliases', c=''):
        v = 'self.variables[i]'
        return "all(implies(i in self.variables and posof(self.variables, i)<%s and %s%s, n in self.%s and self.%s[n]==i) for i in strs() for n in strs())" % (k, N(v), c.format(v=v), d, d)

    def only(k, d='aliases', c=''):
        v = AT.format(d=d)
        return 'all(implies(n in self.{d}, self.{d}[n] in self.variables and posof(self.variables, self.{d}[n])<{k} and {x}) for n in strs())'.format(d=d, k=k, x=N(v) + c.format(v=v))
    L = ' and ' + LOG
    LA = 'logged_aliases'
    reg.contract(MD + '._check_name', params=dict(self=M, name=Str, variable=V),
                 raises=[('ValueError', "name=='time' or (name in self.aliases and self.aliases[name]!=variable.id)")])
    NT = "not 'time' in self.aliases"
    LV = "forall(lambda v: LEVEL(v.logger_level)==LEVEL(old(v.logger_level)) and implies(not isnone(old(v.logger_level)), not isnone(v.logger_level)), T='Var')"
    DEF = 'all(implies(posof(self.variables, i)<{k} and not self.variables[i].temporary_variable, not isnone(self.variables[i].logger_level)) for i in self.variables)'
    SUB = 'all(n in self.aliases and self.aliases[n]==self.logged_aliases[n] for n in self.logged_aliases)'
    PL = 'variable.path.path[self.system.id]'
    INV = 'inverse_logged_aliases'
    inverse = lambda d, k: ['all(implies(n in self.{a} and posof(self.{a}, n)<{k}, n in where and self.{a}[n] in {d} and 0<=where[n] and where[n]<len({d}[self.{a}[n]]) and {d}[self.{a}[n]][where[n]]==n) for n in strs())'.format(a=LA, d=d, k=k),
                            'all({d}[i][q] in self.{a} and self.{a}[{d}[i][q]]==i and posof(self.{a}, {d}[i][q])<{k} for i in {d} for q in range(len({d}[i])))'.format(a=LA, d=d, k=k)]
    VO = 'self.vars_ordered_values'
    col = lambda k, x='False': [
        'all(implies(n in self.{a} and self.{a}[n] in {o} and posof({o}, self.{a}[n])<{k}, n in self.logged_variables and self.logged_variables[n]=={o}[self.{a}[n]]) for n in strs())'.format(a=LA, o=VO, k=k),
        'all(implies(n in self.logged_variables, n in self.{a} and self.{a}[n] in {o} and (posof({o}, self.{a}[n])<{k} or {x}) and self.logged_variables[n]=={o}[self.{a}[n]]) for n in strs())'.format(a=LA, o=VO, k=k, x=x)]
    ME = "check(variable.id in self.variables and refid(self.variables[variable.id])==refid(variable) and posof(self.variables, variable.id)=={0}, 'the-variable')"
    reg.contract(MD + '._assembly_tail#names', part=(None, r'number_of_external_mappings = 0$'), params=dict(self=M), ghosts=dict(where=TDict(Str, Int)),
                 requires=DOM + [('no-names-yet', 'len(self.aliases)==0'),
                                 ('temporaries-have-a-level', 'all(implies(self.variables[i].temporary_variable, not isnone(self.variables[i].logger_level)) for i in self.variables)')],
                 raises=[('ValueError', 'True', 'may')],
                 modifies=['self.aliases', 'self.logged_aliases', 'self.inverse_aliases', 'self.inverse_logged_aliases', 'self.logged_variables', 'Var.logger_level', 'where'],
                 ensures=[('no-variable-named-time', NT), ('levels-kept', LV), ('every-name-its-variable', every('len(self.variables)')), ('no-other-names', only('len(self.variables)')),
                          ('every-logged-name', every('len(self.variables)', LA, L)), ('no-name-below-the-level', only('len(self.variables)', LA, L)),
                          ('columns', 'all(iff(n in self.logged_variables, n in self.logged_aliases and self.logged_aliases[n] in self.vars_ordered_values) for n in strs())'),
                          ('columns-of-their-variables', 'all(n in self.aliases and self.logged_variables[n]==self.vars_ordered_values[self.aliases[n]] for n in self.logged_variables)')],
                 loops=[LoopSpec([NT, LV, SUB, DEF.format(k='_v'), every('_v'), only('_v'), every('_v', LA, L), only('_v', LA, L)], use_start=ME.format('_v'), index='_v'),
                        LoopSpec([NT, SUB, every('_v_outer'), only('_v_outer+1'), every('_v_outer', LA, L), only('_v_outer+1', LA, L),
                                  'all(%s[p] in self.aliases and self.aliases[%s[p]]==variable.id for p in range(_k))' % (PL, PL),
                                  'all(implies(logvar, %s[p] in self.logged_aliases and self.logged_aliases[%s[p]]==variable.id) for p in range(_k))' % (PL, PL)],
                                 use_start=ME.format('_v_outer') + '; check(path==%s[_k], "its-name"); check(%s, "a-name-of-it")' % (PL, N('variable').replace('==n', '==path'))),
                        LoopSpec(inverse(INV, '_k'), use_start='where[k] = len(%s[v]) if v in %s else 0' % (INV, INV)),
                        LoopSpec(col('_c'), index='_c'),
                        LoopSpec(col('_c_outer', 'posof(%s, self.%s[n])==_c_outer' % (VO, LA)) +
                                 ['all(self.inverse_logged_aliases[varname][q] in self.logged_variables and self.logged_variables[self.inverse_logged_aliases[varname][q]]==ix for q in range(_k))'],
                                 use_start='check(vv in self.logged_aliases and self.logged_aliases[vv]==varname and ix==%s[varname] and varname in %s and posof(%s, varname)==_c_outer, "whose-column")' % (VO, VO, VO))])
    # table
    FR = TObj('Frame', cols=TDict(Str, TArr(Real)))
    A = TObj('AliasedDataFrame', aliases=TDict(Str, Str), rename_columns=Bool, df=FR)
    reg.classes['AliasedDataFrame'] = AD
    for f, t in (('df', FR), ('aliases', TDict(Str, Str)), ('rename_columns', Bool)):
        reg.fields[('AliasedDataFrame', f)] = t
    same = 'all(iff(k in {a}, k in {b}) and implies(k in {a}, len({a}[k])==len({b}[k]) and all({a}[k][r]=={b}[k][r] for r in range(len({b}[k])))) for k in strs())'
    reg.external('pandas.DataFrame', names=['data'], ret=FR, ensures=['all(iff(k in result.cols, k in data) and implies(k in data, same(result.cols[k], data[k])) for k in strs())'])
    reg.contract(AD + '.__init__', params=dict(self=A, data=TDict(Str, TArr(Real)), aliases=TDict(Str, Str), rename_columns=Bool),
                 requires=[('ids-are-not-names', 'all(implies(n in aliases, not aliases[n] in data and not aliases[n] in aliases) for n in strs())'),
                           ('names-of-one-variable-agree', 'all(implies(n in data and m in data and n in aliases and m in aliases and aliases[n]==aliases[m], same(data[n], data[m])) for n in strs() for m in strs())')],
                 modifies=['self.df', 'self.aliases', 'self.rename_columns', 'data'],
                 ensures=[('every-name-leads-to-its-data', 'all(implies(rename_columns and n in old(data) and n in aliases, aliases[n] in self.df.cols and same(self.df.cols[aliases[n]], old(data)[n])) for n in strs())'),
                          ('unnamed-columns-kept', 'all(implies(n in old(data) and not (rename_columns and n in aliases), n in self.df.cols and same(self.df.cols[n], old(data)[n])) for n in strs())'),
                          ('nothing-else', 'all(implies(c in self.df.cols, any(n==c and not (rename_columns and n in aliases) or rename_columns and n in aliases and aliases[n]==c for n in old(data))) for c in strs())'),
                          ('names-kept', 'self.rename_columns==rename_columns and all(iff(n in self.aliases, n in aliases) and implies(n in aliases, self.aliases[n]==aliases[n]) for n in strs())')],
                 loops=[LoopSpec(['all(implies(n in old(data) and not n in self.aliases, n in data and same(data[n], old(data)[n])) for n in strs())',
                                  'all(implies(n in old(data) and n in self.aliases and posof(old(data), n)>=_k, n in data and same(data[n], old(data)[n])) for n in strs())',
                                  'all(implies(n in old(data) and n in self.aliases and posof(old(data), n)<_k, self.aliases[n] in data and same(data[self.aliases[n]], old(data)[n])) for n in strs())',
                                  'all(implies(c in data, c in old(data) and (not c in self.aliases or posof(old(data), c)>=_k) or any(posof(old(data), n)<_k and n in self.aliases and self.aliases[n]==c for n in old(data))) for c in strs())'])])
    MH = TObj('Model', logged_variables=TDict(Str, Int), aliases=TDict(Str, Str), numba_model=TObj('CM', historian_data=TArr(Real, 2)))
    ROW = 'len({d}[n])=={h}.shape[1] and all({d}[n][r]=={h}[{i},r] for r in range({h}.shape[1]))'
    LOGD = [('rows-of-slots', 'all(0<=self.logged_variables[n] and self.logged_variables[n]+1<historian_data.shape[0] for n in self.logged_variables) and historian_data.shape[0]>0'),
            ('time-is-no-variable', "not 'time' in self.logged_variables")]
    cols = lambda d, i: [('every-logged-variable', 'all(n in %s and %s for n in self.logged_variables)' % (d, ROW.format(d=d, h='historian_data', i='self.logged_variables[n]+1'))),
                         ('time', "'time' in %s and %s" % (d, ROW.format(d=d, h='historian_data', i='0').replace('[n]', "['time']"))),
                         ('nothing-else', "all(n=='time' or n in self.logged_variables for n in %s)" % d)]
    reg.contract(MD + '.create_historian_dict', params=dict(self=MH, historian_data=TArr(Real, 2)), requires=LOGD, ret=TDict(Str, TArr(Real)), ensures=cols('result', 'n'))
    seen = 'self.aliases[n] if n in self.aliases else n'
    reg.contract(MD + '._generate_history_df', params=dict(self=MH, historian_data=TArr(Real, 2)), ret=A,
                 requires=LOGD + [('names-of-logged-variables', "not 'time' in self.aliases and all(n in self.aliases for n in self.logged_variables)"),
                                  ('ids-are-not-names', "all(implies(n in self.aliases, not self.aliases[n] in self.aliases and not self.aliases[n] in self.logged_variables and self.aliases[n]!='time') for n in strs())"),
                                  ('one-slot-per-variable', 'all(implies(n in self.logged_variables and m in self.logged_variables and self.aliases[n]==self.aliases[m], self.logged_variables[n]==self.logged_variables[m]) for n in strs() for m in strs())')],
                 ensures=[('every-name-leads-to-its-own-row', 'all(self.aliases[n] in result.df.cols and %s for n in self.logged_variables)' % ROW.format(d='result.df.cols', h='historian_data', i='self.logged_variables[n]+1').replace('[n]', '[self.aliases[n]]').replace('logged_variables[self.aliases[n]]', 'logged_variables[n]')),
                          ('time', "'time' in result.df.cols and %s" % ROW.format(d='result.df.cols', h='historian_data', i='0').replace('[n]', "['time']")),
                          ('no-other-column', "all(c=='time' or any(self.aliases[n]==c for n in self.logged_variables) for c in result.df.cols)"),
                          ('names-kept', 'result.rename_columns and all(iff(n in result.aliases, n in self.aliases) and implies(n in self.aliases, result.aliases[n]==self.aliases[n]) for n in strs())')])
    # lookup
    key = '(self.aliases[names] if names in self.aliases else names)'
    reg.external('Frame.__getitem__', names=['self', 'key'], ret=TArr(Real), raises=[('KeyError', 'not key in self.cols')], ensures=['same(result, self.cols[key])'])
    reg.external('Frame.get', names=['self', 'key'], ret=TOpt(TArr(Real)), ensures=['iff(isnone(result), not key in self.cols)', 'implies(key in self.cols, same(some(result), self.cols[key]))'])
    k2 = '(%s if self.rename_columns else names)' % key
    reg.contract(AD + '.__getitem__', params=dict(self=A, names=Str), ret=TArr(Real),
                 raises=[('KeyError', 'not %s in self.df.cols' % k2)],
                 ensures=[('the-column-of-that-name', 'same(result, self.df.cols[%s])' % k2)])
    reg.contract(AD + '.get', params=dict(self=A, names=Str), ret=TOpt(TArr(Real)),
                 ensures=[('nothing-for-an-unknown-name', 'iff(isnone(result), not %s in self.df.cols)' % k2),
                          ('the-column-of-that-name', 'implies(%s in self.df.cols, same(some(result), self.df.cols[%s]))' % (k2, k2))])
    # several names: a table with one column per requested name, in that order
    TB = TObj('Table', columns=TList(Str), vals=TList(TArr(Real)))
    FM = TObj('FrameM', cols=TDict(Str, TArr(Real)))
    AM = TObj('AliasedDataFrame', aliases=TDict(Str, Str), rename_columns=Bool, df=FM)
    pick = ['len({r}.columns)==len(key) and len({r}.vals)==len(key)', 'all({r}.columns[i]==key[i] and same({r}.vals[i], self.cols[key[i]]) for i in range(len(key)))']
    reg.external('FrameM.__getitem__', names=['self', 'key'], ret=TB, raises=[('KeyError', 'any(not key[j] in self.cols for j in range(len(key)))')], ensures=[x.format(r='result') for x in pick])
    ki = key.replace('names', 'names[i]')
    many = [('in-the-order-asked-for', 'len({r}.columns)==len(names) and len({r}.vals)==len(names) and all({r}.columns[i]==(names[i]) for i in range(len(names)))'),
            ('the-columns-of-those-names', 'all(same({r}.vals[i], self.df.cols[%s]) for i in range(len(names)))' % ki)]
    reg.contract(AD + '.__getitem__#several', params=dict(self=AM, names=TList(Str)), ret=TB, requires=['self.rename_columns'],
                 raises=[('KeyError', 'any(not %s in self.df.cols for i in range(len(names)))' % ki)], ensures=[(a, x.format(r='result')) for a, x in many])
    reg.external('FrameM.get', names=['self', 'key'], ret=TOpt(TB), ensures=['iff(isnone(result), any(not key[j] in self.cols for j in range(len(key))))'] + ['isnone(result) or ' + x.format(r='some(result)') for x in pick])
    reg.contract(AD + '.get#several', params=dict(self=AM, names=TList(Str)), ret=TOpt(TB), requires=['self.rename_columns'],
                 ensures=[('nothing-for-an-unknown-name', 'iff(isnone(result), any(not %s in self.df.cols for i in range(len(names))))' % ki)] +
                 [(a, 'isnone(result) or ' + x.format(r='some(result)')) for a, x in many])

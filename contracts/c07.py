"""Recorded history: buffer, flush, table."""
from .compiled import *

EXPLAIN = 'Sampling (historian_update and its callers), the full-buffer signal (is_store_required, post_step), emptying ' \
          '(handle_solve_event, create_historian_df, generate_not_nan_history_array, historian_reinit) and the buffer size ' \
          'against contracts over a ghost table of recorded columns.'
SOLVER = '/opt/venv/lib/python3.12/site-packages/numerous/solver/solve_states.py'
MD = 'numerous.engine.model.model:Model'


def build(reg):
    setup(reg)
    reg.nan_value = True
    reg.ext_enum('numerous.solver.solve_states.SolveEvent', SOLVER)
    S = cm_type(is_external_data=Bool, max_external_t=Real, min_external_t=Real)
    reg.fn('isnan', [('x', Real)], None, lambda v, x: mk(Bool, v.scalar(x, Real) == z3.Const('py:nan', z3.RealSort())))
    # buffer invariant: columns below historian_ix carry a time, the others do not
    BUF = ("0<=self.historian_ix and self.historian_ix<=self.historian_data.shape[1] and "
           "self.historian_data.shape[1]==self.historian_max_size and self.historian_data.shape[0]==len(self.vals)+1 and "
           "len(self.init_vars)==len(self.vals) and "
           "all(iff(isnan(self.historian_data[0,k]), k>=self.historian_ix) for k in range(self.historian_data.shape[1]))")

    def buf(p):
        return BUF.replace('self.', p)
    for n in ('externals',):
        pass
    reg.contract(CM + '.is_store_required', params=dict(self=S), ret=Bool,
                 ensures=[('full', 'iff(result, self.historian_ix>=self.historian_max_size)')])
    reg.contract(CM + '.historian_reinit', params=dict(self=S),
                 requires=[('size', 'self.historian_max_size>=0 and len(self.init_vars)==len(self.vals)')],
                 modifies=['self.historian_data', 'self.historian_ix'],
                 ensures=[('empty', 'self.historian_ix==0'), ('buffer', BUF)])
    reg.contract(CM + '.__init__', params=dict(
        self=TObj('CompiledModel'), init_vars=TArr(Real), deriv_idx=TArr(Int), state_idx=TArr(Int), global_vars=TArr(Real),
        number_of_timesteps=Int, start_time=Real, historian_max_size=Int, external_mappings_time=TArr(Real, 2),
        number_of_external_mappings=Int, external_mappings_numpy=TArr(Real, 3), external_df_idx=TArr(Int, 2),
        interpolation_info=TArr(Bool), is_external_data=Bool, t_max=Real, t_min=Real, external_idx=TArr(Int), post_step=TList(Int)),
        requires=[('size', 'historian_max_size>=0 and number_of_external_mappings>=0')], frame=False,
        ensures=[('starts-empty', 'self.historian_ix==0 and self.historian_max_size==historian_max_size'),
                 ('buffer', BUF.replace('len(self.init_vars)==len(self.vals)', 'True').replace('len(self.vals)', 'len(init_vars)'))])
    UPD = [('one-more', '{0}historian_ix==old({0}historian_ix)+1'),
           ('time-recorded', '{0}historian_data[0,{0}historian_ix-1]==time'),
           ('values-recorded', 'all({0}historian_data[s+1,{0}historian_ix-1]==old({0}vals)[s] for s in range(len({0}vals)))'),
           ('earlier-samples-kept', 'all({0}historian_data[r,k]==old({0}historian_data)[r,k] for r in range({0}historian_data.shape[0]) '
            'for k in range({0}historian_ix-1))'),
           ('buffer', None)]

    def upd(p, t='time'):
        return [(a, (x or BUF.replace('self.', '{0}')).format(p).replace('==time', '==' + t)) for a, x in UPD]
    PRE = [('buffer', None), ('not-full', '{0}historian_ix<{0}historian_max_size'), ('time-is-a-number', 'not isnan(time)')]

    def pre(p, t='time'):
        return [(a, (x or BUF.replace('self.', '{0}')).format(p).replace('(time)', '(%s)' % t)) for a, x in PRE]
    reg.contract(CM + '.historian_update', params=dict(self=S, time=Real), requires=pre('self.'),
                 modifies=['self.historian_data', 'self.historian_ix'], ensures=upd('self.'))
    reg.contract(CM + '.is_external_data_update_needed', params=dict(self=S, t=Real), ret=Bool,
                 ensures=[('needed', 'iff(result, self.is_external_data and (t>self.max_external_t or t<self.min_external_t))')])
    # the interface the solver drives
    reg.external('CompiledModel.run_post_step', names=['self'], modifies=['self.vals'],
                 ensures=['len(self.vals)==len(old(self.vals))'])
    reg.external('CompiledModel.map_external_data', names=['self', 't'], modifies=['self.vals', 'self.global_vars'],
                 ensures=['len(self.vals)==len(old(self.vals))'])
    for n in ('run_post_step', 'map_external_data'):
        reg.contract(CM + '.' + n, params=dict(self=S, **({'t': Real} if n != 'run_post_step' else {})),
                     modifies=['self.vals', 'self.global_vars'], ensures=['len(self.vals)==len(old(self.vals))'],
                     trusted='changes variable values only (never the recorded history); its effect is C08')
    I = TObj('Interface', model=TObj('NumerousEngineModel', numba_model=S))
    reg.classes['Interface'] = SI + 'NumerousEngineModelInterface'
    p = 'self.model.numba_model.'
    mod = [p + 'historian_data', p + 'historian_ix']
    EV = TEnum('SolveEvent')
    full = p + 'historian_ix>=' + p + 'historian_max_size'
    reg.contract(SI + 'NumerousEngineModelInterface.historian_update', params=dict(self=I, t=Real, y=TArr(Real)),
                 requires=pre(p, 't'), modifies=mod, ret=EV,
                 ensures=upd(p, 't') + [('full-buffer-announced', 'result==(SolveEvent.Historian if %s else SolveEvent.NoneEvent)' % full)])
    reg.contract(SI + 'NumerousEngineModelInterface.post_state_event', params=dict(self=I, t=Real, y=TArr(Real), event_id=Str),
                 requires=pre(p, 't'), modifies=mod, ret=EV,
                 ensures=upd(p, 't') + [('full-buffer-announced', 'result==(SolveEvent.Historian if %s else SolveEvent.NoneEvent)' % full)])
    reg.contract(SI + 'NumerousEngineModelInterface.post_time_event', params=dict(self=I, t=Real, y=TArr(Real)),
                 requires=pre(p, 't'), modifies=mod, ret=EV, ensures=upd(p, 't'))
    ext = '{0}is_external_data and (t>{0}max_external_t or t<{0}min_external_t)'.format(p)
    reg.contract(SI + 'NumerousEngineModelInterface.post_step', params=dict(self=I, t=Real, y=TArr(Real)),
                 requires=[('buffer', BUF.replace('self.', p))], modifies=[p + 'vals', p + 'global_vars'], ret=EV,
                 ensures=[('full-buffer-announced', 'iff(result==SolveEvent.Historian or result==SolveEvent.HistorianAndExternalUpdate, %s)' % full),
                          ('new-data-requested', 'iff(result==SolveEvent.ExternalDataUpdate or result==SolveEvent.HistorianAndExternalUpdate, %s)' % ext),
                          ('buffer', BUF.replace('self.', p))])
    # table
    reg.classes['Model'] = MD
    reg.classes['AliasedDataFrame'] = 'numerous.engine.model.aliased_dataframe:AliasedDataFrame'
    FR = TObj('Frame', cols=TArr(Real, 2))
    A = TObj('AliasedDataFrame', df=FR)
    M = TObj('Model', numba_model=S, historian_df=TOpt(A), historian=TObj('Historian'), aliases=TDict(Str, Str))
    reg.external('Historian.store', names=['self', 'df'])
    reg.external('pandas.concat', names=['objs', 'axis', 'sort', 'ignore_index'], ret=FR,
                 requires=[('same-columns', 'len(objs)==2 and objs[0].cols.shape[0]==objs[1].cols.shape[0] and axis==0')],
                 ensures=['result.cols.shape[0]==objs[0].cols.shape[0] and result.cols.shape[1]==objs[0].cols.shape[1]+objs[1].cols.shape[1]',
                          'all(result.cols[r_,k_]==objs[0].cols[r_,k_] for r_ in range(objs[0].cols.shape[0]) for k_ in range(objs[0].cols.shape[1]))',
                          'all(result.cols[r_,k_+objs[0].cols.shape[1]]==objs[1].cols[r_,k_] for r_ in range(objs[1].cols.shape[0]) for k_ in range(objs[1].cols.shape[1]))'])
    reg.fields[('AliasedDataFrame', 'df')] = FR
    same = '{0}.shape[0]=={1}.shape[0] and {0}.shape[1]=={1}.shape[1] and all({0}[r,k]=={1}[r,k] for r in range({1}.shape[0]) for k in range({1}.shape[1]))'
    reg.contract('numerous.engine.model.aliased_dataframe:AliasedDataFrame.__init__',
                 params=dict(self=A, data=FR, aliases=TDict(Str, Str), rename_columns=Bool), modifies=['self.df'],
                 ensures=['self.df.cols.shape[0]==data.cols.shape[0] and self.df.cols.shape[1]==data.cols.shape[1] and '
                          'all(self.df.cols[r,k]==data.cols[r,k] for r in range(data.cols.shape[0]) for k in range(data.cols.shape[1]))'],
                 trusted='AliasedDataFrame keeps the rows of the table it is given (column names are C16)')
    reg.contract(MD + '._generate_history_df', params=dict(self=M, historian_data=TArr(Real, 2)), ret=A,
                 ensures=['result.df.cols.shape[0]==historian_data.shape[0] and result.df.cols.shape[1]==historian_data.shape[1] and '
                          'all(result.df.cols[r,k]==historian_data[r,k] for r in range(historian_data.shape[0]) for k in range(historian_data.shape[1]))'],
                 trusted='one table row per recorded sample with that sample\'s values (column names and selection are C16)')
    q = 'self.numba_model.'
    MB = BUF.replace('self.', q)
    part = ('len({0}vals)>=0 and result.shape[0]=={0}historian_data.shape[0] and result.shape[1]=={0}historian_ix and '
            'all(result[r,k]=={0}historian_data[r,k] for r in range({0}historian_data.shape[0]) for k in range({0}historian_ix))').format(q)
    reg.contract(MD + '.generate_not_nan_history_array', params=dict(self=M), requires=[('buffer', MB)], ret=TArr(Real, 2),
                 ensures=[('exactly-the-recorded-samples', part)])
    n0 = '(0 if isnone(old(self.historian_df)) else old(some(self.historian_df).df.cols.shape[1]))'
    tab = 'some(self.historian_df).df.cols'
    TAB = [('table-exists', 'not isnone(self.historian_df)'),
           ('table-grows-by-the-samples', '%s.shape[1]==%s+old(%shistorian_ix) and %s.shape[0]==len(%svals)+1' % (tab, n0, q, tab, q)),
           ('old-rows-kept', 'isnone(old(self.historian_df)) or all(%s[r,k]==old(some(self.historian_df).df.cols)[r,k] for r in range(%s.shape[0]) '
            'for k in range(old(some(self.historian_df).df.cols.shape[1])))' % (tab, tab)),
           ('samples-appended-in-order', 'all(%s[r,%s+k]==old(%shistorian_data)[r,k] for r in range(%s.shape[0]) for k in range(old(%shistorian_ix)))'
            % (tab, n0, q, tab, q))]
    TPRE = [('buffer', MB), ('table-columns', 'isnone(self.historian_df) or %s.shape[0]==len(%svals)+1' % (tab, q))]
    reg.contract(MD + '.create_historian_df', params=dict(self=M), requires=TPRE,
                 modifies=[('self.historian_df', TOpt(A))], ensures=TAB)
    # flush
    H = TObj('NumerousEngineEventHandler', _model=M, _nm=None)
    reg.classes['NumerousEngineEventHandler'] = SI + 'NumerousEngineEventHandler'

    def alias(v, env):
        env['self'] = o = v.symbolic(TObj('NumerousEngineEventHandler', _model=M), 'self')
        cls, f = v.st.objs[o.addr]
        f['_nm'] = v.getattr(f['_model'], 'numba_model')
        return o
    for n in ('_load_external_data',):
        reg.contract(SI + 'NumerousEngineEventHandler.' + n, params=dict(self=H, t=Real),
                     modifies=['self._nm.vals'], ensures=['len(self._nm.vals)==len(old(self._nm.vals))'],
                     trusted='loading external data does not touch the recorded history (its effect is C08)')
    h = 'self._model.'
    flush = 'event_id==SolveEvent.Historian or event_id==SolveEvent.HistorianAndExternalUpdate'
    sub = lambda x: x.replace('self.', h)
    reg.contract(SI + 'NumerousEngineEventHandler.handle_solve_event',
                 params=dict(self=alias, interface=TObj('Interface'), event_id=EV, t=Real),
                 requires=[(a, sub(x)) for a, x in TPRE], modifies=[(h + 'historian_df', TOpt(A)), h + 'numba_model.historian_data',
                                                                   h + 'numba_model.historian_ix', h + 'numba_model.vals'],
                 ensures=[(a, 'implies(%s, %s)' % (flush, sub(x))) for a, x in TAB] +
                 [('buffer-emptied', 'implies(%s, self._nm.historian_ix==0)' % flush),
                  ('otherwise-untouched', 'implies(not (%s), self._nm.historian_ix==old(self._nm.historian_ix))' % flush),
                  ('buffer', sub(MB))])
    HS = TObj('Historian', max_size=Int, timesteps_reserved_per_event=Int)
    reg.contract('numerous.utils.historian:Historian.get_historian_max_size',
                 params=dict(self=HS, number_of_timesteps=Int, events_count=Int),
                 requires=[('sizes', 'self.max_size>=0 and number_of_timesteps>=1 and events_count>=0 and self.timesteps_reserved_per_event>=0')],
                 ret=Int, ensures=[('room-for-one-sample', 'result>=1'), ('chosen-size-respected', 'implies(self.max_size>0, result==self.max_size)')])

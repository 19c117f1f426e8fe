"""Chunked loading of csv files."""
from pyvc.spec import *

EXPLAIN = 'CSVDataLoader._valid and load against contracts over a ghost file (any number of rows and columns, increasing ' \
          'times), for every chunk size, position of the time column, previous request and file.'
ASSUME = ['pandas.read_csv(skiprows=s, chunksize=c) yields the file rows from row s on in consecutive chunks of c rows (the line at s is '
          'taken as header); pandas.concat joins them unchanged', 'the time column of the file is increasing and the file has at least one row']
DL = 'numerous.utils.data_loader:CSVDataLoader'


def build(reg):
    def gh(name, ret, *doms):
        f = z3.Function('file_' + name, *[d.sort for d in (Str,) + doms], ret.sort)
        reg.fn(name, [('id', Str)] + [('a%d' % i, d) for i, d in enumerate(doms)], None,
               lambda v, *a: mk(ret, f(*[v.scalar(x, d) for x, d in zip(a, (Str,) + doms)])))
    gh('rows', Int)
    gh('cols', Int)
    gh('tcol', Int)
    gh('cell', Real, Int, Int)
    reg.fn('time_at', [('id', Str), ('r', Int)], None, 'cell(id, r, tcol(id))')
    reg.refs['Chunk'] = RefClass(dict(iloc=TArr(Real, 2), columns=TArr(Str), lo=Int, id=Str), construct=False)
    FR = TObj('Frame', lo=Int, n=Int, id=Str)
    FILE = 'rows({0})>=1 and cols({0})>=1 and 0<=tcol({0}) and tcol({0})<cols({0}) and all(time_at({0},r)<time_at({0},q) for q in range(rows({0})) for r in range(q))'
    # chunks are consecutive pieces of the file from row s on
    CH = ("len(chunks)>=1 and all(chunks[i].id=={id} and chunks[i].lo=={s}+i*{c} and chunks[i].iloc.shape[0]>=1 and chunks[i].iloc.shape[1]==cols({id}) and "
          "len(chunks[i].columns)==cols({id}) and chunks[i].lo+chunks[i].iloc.shape[0]==(rows({id}) if i+1==len(chunks) else {s}+(i+1)*{c}) and "
          "chunks[i].iloc.shape[0]<={c} and all(chunks[i].iloc[r,j]==cell({id},chunks[i].lo+r,j) for r in range(chunks[i].iloc.shape[0]) for j in range(cols({id}))) "
          "for i in range(len(chunks))) and implies({s}==0, all(iff(chunks[i].columns[j]=='time', j==tcol({id})) for i in range(len(chunks)) for j in range(cols({id}))))")
    reg.external('pandas.read_csv', names=['path', 'header', 'skiprows', 'chunksize'], ret=TList(TRef('Chunk')),
                 requires=[('within-the-file', 'header==0 and chunksize>=1 and 0<=skiprows and skiprows<rows(path)')],
                 ensures=[CH.replace('chunks', 'result').format(id='path', s='skiprows', c='chunksize')])
    reg.external('pandas.concat', names=['objs'], ret=FR,
                 requires=[('something', 'len(objs)>=1'),
                           ('contiguous-and-in-order', 'all(objs[k].id==objs[0].id for k in range(len(objs))) and all(objs[k].lo==objs[k-1].lo+objs[k-1].iloc.shape[0] for k in range(1,len(objs)))')],
                 ensures=['result.id==objs[0].id and result.lo==objs[0].lo and result.n==objs[len(objs)-1].lo+objs[len(objs)-1].iloc.shape[0]-objs[0].lo'])
    reg.external('pandas.DataFrame', names=[], ret=FR)
    L = TObj('CSVDataLoader', chunksize=Int, is_chunks=Bool, _skiprows=Int, _t=Real, _df_id=TOpt(Str), df=FR, t_ix=TOpt(Int))
    reg.classes['CSVDataLoader'] = DL
    TIX = 'iff(isnone(self.t_ix), {0}) and implies(not isnone(self.t_ix), some(self.t_ix)==tcol({1}))'
    inv = ("len(_yielded)==_k and all(_yielded[q].id==chunks[0].id and _yielded[q].lo==chunks[q].lo and _yielded[q].iloc.shape[0]==chunks[q].iloc.shape[0] "
           "and refid(_yielded[q])==refid(chunks[q]) for q in range(_k)) and self._skiprows==old(self._skiprows) and "
           "all(time_at(chunks[0].id,r)<=t for r in range(old(self._skiprows), min(rows(chunks[0].id), old(self._skiprows)+_k*self.chunksize))) and "
           "implies(isnone(self.t_ix), _k==0 and self._skiprows==0) and implies(not isnone(self.t_ix), some(self.t_ix)==tcol(chunks[0].id))")
    last = 'result[len(result)-1]'
    end = '%s.lo+%s.iloc.shape[0]' % (last, last)
    POS = ('position', 'self._skiprows>=old(self._skiprows) and self._skiprows<rows(chunks[0].id) and (self._skiprows==0 or time_at(chunks[0].id,self._skiprows)<=t or self._skiprows==old(self._skiprows))')
    reg.contract(DL + '._valid', params=dict(self=L, chunks=TList(TRef('Chunk')), t=Real), 
                 requires=[('file', FILE.format('chunks[0].id')), ('chunk-size', 'self.chunksize>=1 and 0<=self._skiprows and self._skiprows<rows(chunks[0].id)'),
                           ('chunks', CH.format(id='chunks[0].id', s='self._skiprows', c='self.chunksize')),
                           ('time-column', 'implies(isnone(self.t_ix), self._skiprows==0) and implies(not isnone(self.t_ix), some(self.t_ix)==tcol(chunks[0].id))')],
                 modifies=['self._skiprows', 'self.t_ix'], ret=TList(TRef('Chunk')),
                 ensures=[('leading-chunks', 'len(result)>=1 and len(result)<=len(chunks) and all(refid(result[k])==refid(chunks[k]) for k in range(len(result)))'),
                          ('reaches-past-t', 'len(result)==len(chunks) or time_at(chunks[0].id, %s-1)>t' % end),
                          POS, ('time-column-known', 'not isnone(self.t_ix) and some(self.t_ix)==tcol(chunks[0].id)'),
                          ('nothing-needed-is-skipped', 'all(time_at(chunks[0].id,r)<=t for r in range(self._skiprows+1))  or self._skiprows==old(self._skiprows)')],
                 loops=[LoopSpec([inv], use_start="check(implies(isnone(self.t_ix), chunks[_k].columns[tcol(chunks[0].id)]=='time'), 'time-column-present')")])
    # the loader remembers the file, the last request and a position at or before it
    OWN = [('chunked', 'self.is_chunks and self.chunksize>=1'),
           ('no-file-yet', 'implies(isnone(self._df_id), self._skiprows==0 and isnone(self.t_ix))'),
           ('position', 'self._skiprows>=0 and implies(not isnone(self._df_id), self._skiprows<rows(some(self._df_id)) and '
            '(self._skiprows==0 or time_at(some(self._df_id),self._skiprows)<=self._t))'),
           ('time-column', 'implies(isnone(self.t_ix), self._skiprows==0) and implies(not isnone(self.t_ix), '
            'not isnone(self._df_id) and some(self.t_ix)==tcol(some(self._df_id)))')]
    reg.contract(DL + '.__init__', params=dict(self=TObj('CSVDataLoader'), chunksize=Int), frame=False,
                 requires=[('chunked', 'chunksize>=1')], ensures=OWN)
    reg.contract(DL + '.load', params=dict(self=L, df_id=Str, t=Real), ret=FR,
                 requires=[('file', FILE.format('df_id'))] + OWN,
                 modifies=['self._skiprows', 'self._t', 'self._df_id', 'self.df', 'self.t_ix'],
                 ensures=[('block-of-this-file', 'result.id==df_id and 0<=result.lo and result.n>=1 and result.lo+result.n<=rows(df_id)'),
                          ('holds-the-row-at-or-before-t', 'result.lo==0 or time_at(df_id,result.lo)<=t'),
                          ('holds-the-row-after-t', 'result.lo+result.n==rows(df_id) or time_at(df_id,result.lo+result.n-1)>t'),
                          ('remembers', 'some(self._df_id)==df_id and self._t==t')] + OWN[1:] )

"""Bounded: the csv loader against the whole file, real files, any order of requests."""
from hlib import *
import numpy as np
import pandas as pd
import random
import os

h = H('csv files of 1-40 rows, 1-3 columns, the time column anywhere, chunks of 1-50 rows or whole files, up to 10 requests at, between, before '
      'and after the rows, increasing, repeated and going back, on one or two files', 70)
from numerous.utils.data_loader import CSVDataLoader


def files(rng, k):
    out = []
    for j in range(k):
        n = rng.choice([1, 2, 3, 5, 8, 13, 40])
        t = np.cumsum([rng.choice([0.1, 0.5, 1.0, 2.5]) for _ in range(n)]) + rng.uniform(-2, 2)
        cols = ['time'] + ['c%d' % i for i in range(rng.randint(1, 3))]
        rng.shuffle(cols)
        df = pd.DataFrame({c: (t if c == 'time' else np.array([rng.uniform(-1, 1) for _ in t])) for c in cols})
        p = os.path.join(os.getcwd(), 'h10_%d_%d.csv' % (os.getpid(), j))
        df.to_csv(p, index=rng.random() < 0.5)
        out.append((p, pd.read_csv(p)))
    return out


def check(full, df, t, how):
    if list(df.columns) != list(full.columns) and df.shape[1] != full.shape[1]:
        return '%s: %d columns instead of %d' % (how, df.shape[1], full.shape[1])
    a, b = df.to_numpy(float), full.to_numpy(float)
    if not len(a):
        return '%s: nothing loaded' % how
    at = [i for i in range(len(b)) if np.array_equal(b[i], a[0])]
    if not at or not np.array_equal(b[at[0]:at[0] + len(a)], a):
        return '%s: not a contiguous block of the file' % how
    lo, hi = at[0], at[0] + len(a)
    times = full['time'].to_numpy(float)
    before = [i for i in range(len(times)) if times[i] <= t]
    after = [i for i in range(len(times)) if times[i] > t]
    if before and not lo <= before[-1] < hi:
        return '%s: rows %d..%d, the row at or before t is %d' % (how, lo, hi - 1, before[-1])
    if after and not lo <= after[0] < hi:
        return '%s: rows %d..%d, the row after t is %d' % (how, lo, hi - 1, after[0])
    return None


def case(seed):
    rng = random.Random(seed)
    fs = files(rng, rng.choice([1, 1, 2]))
    chunk = rng.choice([1, 2, 3, 4, 7, 50, 0])
    ld = CSVDataLoader(chunksize=chunk)
    how = []
    kind = rng.choice(['up', 'any', 'up'])
    t = None
    lo = min(f['time'].min() for _, f in fs)
    hi = max(f['time'].max() for _, f in fs)
    back = False
    for step in range(rng.randint(1, 10)):
        p, full = rng.choice(fs)
        tt = full['time'].to_numpy(float)
        r = rng.random()
        if r < 0.4:
            nt = float(rng.choice(list(tt)))
        elif r < 0.8:
            nt = rng.uniform(lo - 0.5, hi + 0.5)
        else:
            nt = t if t is not None else lo
        if kind == 'up' and t is not None:
            nt = max(nt, t)
        t = nt
        how.append((fs.index((p, full)) if False else os.path.basename(p)[-5], t))
        r = check(full, ld.load(p, t), t, 'chunks of %d, %d rows, requests %r' % (chunk, len(full), how))
        if r:
            return r


def whole(seed):
    """the values read at t must not depend on the chunk size"""
    rng = random.Random(seed)
    (p, full), = files(rng, 1)
    tt = full['time'].to_numpy(float)
    ts = sorted(rng.uniform(tt[0], tt[-1]) for _ in range(6))
    ls = [(c, CSVDataLoader(chunksize=c)) for c in (1, 2, 5, 1000, 0)]
    for t in ts:
        got = []
        for c, l in ls:
            d = l.load(p, t)
            d.columns = full.columns
            got.append([float(np.interp(t, d['time'], d[x])) for x in full.columns])
        if any(not np.allclose(g, got[0], equal_nan=True) for g in got):
            return 'values at t=%r for chunk sizes 1, 2, 5, 1000 and whole: %r' % (t, got)


for seed in range(700 if not THOROUGH else 9000):
    if not h.left():
        break
    h.case('block', lambda: case(SEED * 100000 + seed), {'seed': SEED * 100000 + seed})
    if seed % 4 == 0:
        h.case('same-values', lambda: whole(SEED * 100000 + seed), {'seed': SEED * 100000 + seed})
h.done()

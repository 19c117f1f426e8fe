"""Discharges verification conditions in parallel; every verdict comes from a solver run on this source."""
import multiprocessing as mp
import os
import subprocess
import tempfile
import time
import z3

from . import vals


def consts_of(t, seen, lits, fns):
    todo = [t]
    while todo:
        x = todo.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen[i] = x
        if z3.is_quantifier(x):
            todo.append(x.body())
            for j in range(x.num_patterns()):
                todo.append(x.pattern(j))
        elif z3.is_app(x):
            d = x.decl()
            if d.kind() == z3.Z3_OP_UNINTERPRETED:
                n = d.name()
                if n.startswith('lit:'):
                    lits[n] = x
                elif n.startswith(('rec:', 'lim:')):
                    fns.add(n[4:])
            todo.extend(x.children())


_info = {}


def info_of(h):
    i = h.get_id()
    if i not in _info:
        seen, lits, fns = {}, {}, set()
        consts_of(h, seen, lits, fns)
        names = {x.decl().name() for x in seen.values() if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED}
        _info[i] = (h, lits, fns, names)
    return _info[i]


def context(hyps, goal, recax, extra=()):
    lits, fns, names = {}, set(), set()
    for h in list(hyps) + ([goal] if goal is not None else []):
        _, l, f, n = info_of(h)
        lits.update(l)
        fns |= f
        names |= n
    out, done = [], set()
    while True:
        new = [f for f in fns if f not in done and f in recax]
        if not new:
            break
        for f in new:
            done.add(f)
            for ax in recax[f]:
                out.append(ax)
                _, l, g, n = info_of(ax)
                lits.update(l)
                fns |= g
                names |= n
    for need, ax in extra:
        if need is None or need & names:
            out.append(ax)
            lits.update(info_of(ax)[1])
    if len(lits) > 1:
        out.append(z3.Distinct(*lits.values()))
    return out


CONFIGS = [
    dict(),
    {'smt.mbqi': False, 'auto_config': False},
    {'smt.random_seed': 7, 'smt.case_split': 3, 'auto_config': False, 'smt.mbqi': False},
    {'smt.arith.solver': 2},
]


def check_once(hyps, goal, ctx, cfg, timeout):
    s = z3.Solver()
    s.set('timeout', int(timeout * 1000))
    for k, v in cfg.items():
        s.set(k, v)
    for a in ctx:
        s.add(a)
    for h in hyps:
        s.add(h)
    if goal is not None:
        s.add(z3.Not(goal))
    r = s.check()
    return r, s


_W = {}


def worker(i):
    vc = _W['vcs'][i]
    t0 = time.time()
    try:
        ctx = context(vc.hyps, vc.goal, _W['recax'], _W['extra'])
        best = 'unknown'
        model = ''
        for k, cfg in enumerate(CONFIGS):
            to = _W['timeouts'][min(k, len(_W['timeouts']) - 1)]
            if to <= 0:
                continue
            r, s = check_once(vc.hyps, vc.goal, ctx, cfg, to)
            if r == z3.unsat:
                return i, 'proved', 'z3', time.time() - t0, ''
            if r == z3.sat:
                try:
                    m = s.model()
                    model = '\n'.join('%s = %s' % (d.name(), str(m[d])[:200]) for d in m.decls()
                                      if d.arity() == 0)[:6000]
                except z3.Z3Exception:
                    pass
                return i, 'refuted', 'z3', time.time() - t0, model
        return i, best, 'z3', time.time() - t0, model
    except Exception as e:           # solver trouble is 'unknown', never a verdict
        return i, 'unknown', 'z3', time.time() - t0, 'solver error: %s' % e


def smt2(vc, recax, extra=()):
    ctx = context(vc.hyps, vc.goal, recax, extra)
    s = z3.Solver()
    for a in list(ctx) + list(vc.hyps):
        s.add(a)
    s.add(z3.Not(vc.goal))
    return s.to_smt2()


def cross(i):
    """second opinion from another binary on the exported SMT-LIB text"""
    vc = _W['vcs'][i]
    t0 = time.time()
    try:
        text = smt2(vc, _W['recax'], _W['extra'])
    except Exception:
        return i, 'unknown', 'export', 0.0
    fd, path = tempfile.mkstemp(suffix='.smt2')
    try:
        with os.fdopen(fd, 'w') as f:
            f.write(text)
        for exe in _W['cross']:
            try:
                r = subprocess.run(exe + [path], capture_output=True, text=True, timeout=_W['cross_to'] + 5)
            except (subprocess.TimeoutExpired, OSError):
                continue
            first = r.stdout.strip().split('\n')[0] if r.stdout.strip() else ''
            if first == 'unsat':
                return i, 'proved', exe[0], time.time() - t0
            if first == 'sat':
                return i, 'refuted', exe[0], time.time() - t0
        return i, 'unknown', '', time.time() - t0
    finally:
        os.unlink(path)


def solve_all(vcs, recax, extra=(), timeouts=(4, 6, 8, 6), jobs=None, deadline=None):
    """returns list of (status, backend, time, model) aligned with vcs"""
    res = [None] * len(vcs)
    todo = []
    for i, vc in enumerate(vcs):
        if vc.hyps is None:
            res[i] = ('proved', 'evaluation', 0.0, '')
        else:
            todo.append(i)
    _W.update(vcs=vcs, recax=recax, extra=extra, timeouts=timeouts)
    if todo:
        jobs = jobs or min(8, os.cpu_count() or 2)
        ctx = mp.get_context('fork')
        with ctx.Pool(min(jobs, len(todo)), maxtasksperchild=40) as pool:
            it = pool.imap_unordered(worker, todo)
            for _ in todo:
                try:
                    left = None if deadline is None else max(1.0, deadline - time.time())
                    i, st, be, t, m = it.next(left)
                    res[i] = (st, be, t, m)
                except mp.TimeoutError:
                    break
            pool.terminate()
    for i in range(len(vcs)):
        if res[i] is None:
            res[i] = ('unknown', 'none', 0.0, 'out of time')
    return res


def cross_all(vcs, idx, recax, extra=(), exes=(['z3-new', '-T:20'], ['cvc5', '--tlimit=20000', '-q']), to=20, jobs=8):
    _W.update(vcs=vcs, recax=recax, extra=extra, cross=list(exes), cross_to=to)
    if not idx:
        return {}
    ctx = mp.get_context('fork')
    out = {}
    with ctx.Pool(min(jobs, len(idx)), maxtasksperchild=40) as pool:
        for i, st, be, t in pool.imap_unordered(cross, idx):
            out[i] = (st, be, t)
    return out


# ------------------------------------------------------------ weakening: products and quotients as unknown functions
def abstract_nl(assertions, order=False):
    """non-linear terms become applications of unknown functions (a weaker set of assumptions)"""
    memo = {}
    hit = [False]

    def num(x):
        return z3.is_int_value(x) or z3.is_rational_value(x)

    def uf(name, s, args):
        hit[0] = True
        return z3.Function('nl_%s_%s' % (name, s.name()), *[a.sort() for a in args], s)(*args)

    def go(t):
        i = t.get_id()
        if i in memo:
            return memo[i][1]
        if z3.is_quantifier(t):
            vs = [z3.FreshConst(t.var_sort(k), t.var_name(k)) for k in range(t.num_vars())]
            body = go(z3.substitute_vars(t.body(), *reversed(vs)))
            if t.is_lambda():
                r = z3.Lambda(vs, body)
            else:
                pats = []
                for k in range(t.num_patterns()):
                    p = t.pattern(k)
                    cs = [go(z3.substitute_vars(c, *reversed(vs))) for c in p.children()]
                    pats.append(z3.MultiPattern(*cs) if len(cs) > 1 else cs[0])
                r = (z3.ForAll if t.is_forall() else z3.Exists)(vs, body, patterns=pats)
        elif z3.is_app(t) and t.num_args():
            ch = [go(c) for c in t.children()]
            k = t.decl().kind()
            if k == z3.Z3_OP_MUL:
                cs = [c for c in ch if num(c)]
                vs = [c for c in ch if not num(c)]
                if order:
                    vs.sort(key=lambda c: c.get_id())
                if len(vs) > 1:
                    r = vs[0]
                    for c in vs[1:]:
                        r = uf('mul', t.sort(), [r, c])
                    for c in cs:
                        r = c * r
                else:
                    r = t.decl()(*ch)
            elif k == z3.Z3_OP_DIV and not num(ch[1]):
                r = uf('div', t.sort(), ch)
            elif k in (z3.Z3_OP_IDIV, z3.Z3_OP_MOD) and not num(ch[1]):
                r = uf('idiv' if k == z3.Z3_OP_IDIV else 'mod', t.sort(), ch)
            else:
                r = t.decl()(*ch)
        else:
            r = t
        memo[i] = (t, r)
        return r

    out = [go(a) for a in assertions]
    return out, hit[0]

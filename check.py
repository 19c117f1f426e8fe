#!/usr/bin/env python3-vt
"""Decides one property: generates the verification conditions from /repo's current source, discharges them,
runs the bounded harness on the real code, writes evidence.  usage: check.py <property>"""
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import shutil
import subprocess
import sys
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)
TIER = os.environ.get('VERIF_TIER', 'quick')
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
REPO = os.environ.get('PYVC_REPO', '/repo')
PY = '/opt/venv/bin/python'


def gen(job):
    """verification conditions of one function / lemma as SMT-LIB text (child process)"""
    prop, kind, name = job
    from pyvc.spec import Verifier, Program, Unsupported
    from pyvc import solve
    import z3
    t0 = time.time()
    out = {'kind': kind, 'name': name, 'vcs': [], 'undecided': None, 'assumed': [], 'inlined': [], 'calls': []}
    try:
        reg = load(prop)
        v = Verifier(Program(), reg)
        if kind == 'lemma':
            vcs, stats = v.verify_lemma(reg.lemmas[name]), {'paths': 1, 'returns': 1}
        else:
            c = reg.contracts[name]
            vcs, stats = v.verify(c)
            if not stats['returns'] and not c.raises:
                out['undecided'] = 'no path reaches the end of the function'
            extra = extras(reg)
            recax = v.rec_axioms()
            # vacuity: the precondition and at least one exit must not be contradictory
            s = solve.check_once(v.req_pc, None, solve.context(v.req_pc, None, recax, extra), {}, 2)[0]
            if s == z3.unsat:
                out['vacuous'] = 'precondition contradictory'
            pcs = stats.get('exit_pcs', [])
            if pcs and kind == 'function':
                ok = False
                for pc in pcs[:6]:
                    if solve.check_once(pc, None, solve.context(pc, None, recax, extra), {'smt.mbqi': False,
                                        'auto_config': False}, 1)[0] != z3.unsat:
                        ok = True
                        break
                if not ok and len(pcs) <= 6:
                    out['vacuous'] = 'every exit contradictory'
            if stats.get('unmatched_loops'):
                out['undecided'] = 'fewer loops than loop contracts'
            if stats.get('missed_hints'):
                out['undecided'] = 'proof hints without a place: %s' % stats['missed_hints']
        recax = v.rec_axioms()
        extra = extras(reg)
        for vc in vcs:
            if vc.hyps is None:
                out['vcs'].append((vc.name, vc.where, vc.kind, None, ''))
            else:
                out['vcs'].append((vc.name, vc.where, vc.kind, solve.smt2(vc, recax, extra), vc.goal.sexpr()[:500]))
        out['paths'] = stats['paths']
        out['assumed'] = sorted(v.assumed)
        out['inlined'] = sorted(v.inlined)
        out['calls'] = sorted(v.used_contracts)
        out['notes'] = sorted(set(v.notes))
    except Unsupported as e:
        out['undecided'] = str(e)
    except RecursionError:
        out['undecided'] = 'term too deep'
    except Exception as e:
        out['undecided'] = 'verifier error: %s: %s' % (type(e).__name__, e)
        out['trace'] = traceback.format_exc()[-1500:]
    out['gen_s'] = round(time.time() - t0, 2)
    return out


def extras(reg):
    return getattr(reg, 'smt_axioms', ())


def load(prop):
    from pyvc.spec import Registry
    m = importlib.import_module('contracts.' + prop.lower())
    reg = Registry()
    m.build(reg)
    reg.module = m
    return reg


def abstract_nl_worth(text):
    return '(* ' in text or '(/ ' in text or '(div ' in text or '(mod ' in text


def sliced(text, each=3):
    """is the goal provable from fewer quantified assumptions? (the latest ones; those about the goal's symbols)"""
    import z3
    from pyvc.solve import info_of
    s = z3.Solver()
    try:
        s.from_string(text)
        a = list(s.assertions())
        goal, hyps = a[-1], a[:-1]

        def quantified(x):
            todo, seen = [x], set()
            while todo:
                y = todo.pop()
                if z3.is_quantifier(y):
                    return True
                if y.get_id() not in seen:
                    seen.add(y.get_id())
                    todo.extend(y.children())
            return False
        qs = [i for i, h in enumerate(hyps) if quantified(h)]
        defs = [i for i in qs if any(n.startswith('lim:') for n in info_of(hyps[i])[3]) and i < 12]
        names = set(info_of(goal)[3])
        own = [i for i in qs if info_of(hyps[i])[3] <= names]
        done = set()
        for keep in (own, qs[-6:], qs[-12:], qs[-24:], own + qs[-12:]):
            ks = frozenset(keep) | frozenset(defs)
            if ks in done or len(ks) == len(qs):
                continue
            done.add(ks)
            s = z3.Solver()
            s.set('timeout', each * 1000)
            s.set('auto_config', False)
            s.set('smt.mbqi', False)
            s.add(*[h for i, h in enumerate(hyps) if i not in set(qs) or i in ks])
            s.add(goal)
            if s.check() == z3.unsat:
                return True
    except z3.Z3Exception:
        pass
    return False


def other_solver(text):
    """the first other solver that proves the goal"""
    fd, path = tempfile.mkstemp(suffix='.smt2')
    with os.fdopen(fd, 'w') as f:
        f.write(text if '(check-sat)' in text else text + '\n(check-sat)\n')
    try:
        for name, exe in (('z3 4.8.12', ['z3', '-T:5', 'smt.mbqi=false', 'smt.auto_config=false']), ('z3 4.8.12', ['z3', '-T:4']),
                          ('cvc5', ['cvc5', '--tlimit=6000', '-q', '--arrays-exp'])):
            try:
                r = subprocess.run(exe + [path], capture_output=True, text=True, timeout=15)
            except (subprocess.TimeoutExpired, OSError):
                continue
            if (r.stdout.strip().split('\n') or [''])[0] == 'unsat':
                return name
    finally:
        os.unlink(path)
    return None


def solve_text(job):
    ix, text, timeouts = job
    import z3
    from pyvc.solve import CONFIGS, abstract_nl
    t0 = time.time()
    try:
        s = z3.Solver()
        s.from_string(text)
        if abstract_nl_worth(text):
            asts = list(s.assertions())
            for order in (False, True):
                terms, hit = abstract_nl(asts, order)
                if not hit:
                    break
                s = z3.Solver()
                s.set('timeout', int(timeouts[0] * 1000 / 2))
                s.set('smt.mbqi', False)
                s.set('auto_config', False)
                s.add(*terms)
                if s.check() == z3.unsat:
                    return ix, 'proved', time.time() - t0, 'products as unknown functions'
    except z3.Z3Exception:
        pass
    for k, to in enumerate(timeouts):
        cfg = CONFIGS[k % len(CONFIGS)]
        if k == 1 and sliced(text):
            return ix, 'proved', time.time() - t0, 'from part of the assumptions'
        if k == 1:
            be = other_solver(text)
            if be:
                return ix, 'proved', time.time() - t0, be
        try:
            s = z3.Solver()
            s.set('timeout', int(to * 1000))
            for kk, vv in cfg.items():
                s.set(kk, vv)
            s.from_string(text)
            r = s.check()
        except z3.Z3Exception as e:
            return ix, 'unknown', time.time() - t0, 'solver error %s' % e
        if r == z3.unsat:
            return ix, 'proved', time.time() - t0, ''
        if r == z3.sat:
            try:
                m = s.model()
                txt = '\n'.join('%s = %s' % (d.name(), str(m[d])[:300]) for d in m.decls() if d.arity() == 0)[:8000]
            except Exception:
                txt = ''
            return ix, 'refuted', time.time() - t0, txt
    return ix, 'unknown', time.time() - t0, ''


def run_pool(jobs, n):
    if not jobs:
        return
    ctx = mp.get_context('fork')
    with ctx.Pool(min(n, len(jobs)), maxtasksperchild=60) as p:
        yield from p.imap_unordered(solve_text, jobs)


def cross_check(items):
    """second prover on exported text: z3 (newer release) and cvc5"""
    out = {}
    for ix, text in items:
        fd, path = tempfile.mkstemp(suffix='.smt2')
        with os.fdopen(fd, 'w') as f:
            f.write(text if '(check-sat)' in text else text + '\n(check-sat)\n')
        res = 'unknown'
        try:
            for exe in (['z3-new', '-T:10'], ['cvc5', '--tlimit=10000', '-q', '--arrays-exp']):
                try:
                    r = subprocess.run(exe + [path], capture_output=True, text=True, timeout=20)
                except (subprocess.TimeoutExpired, OSError):
                    continue
                first = (r.stdout.strip().split('\n') or [''])[0]
                if first in ('unsat', 'sat'):
                    res = first + ' (%s)' % exe[0]
                    break
        finally:
            os.unlink(path)
        out[ix] = res
    return out


def start_harness(prop, scratch):
    path = os.path.join(HERE, 'harness', prop.lower() + '.py')
    if not os.path.isfile(path):
        return None
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', NUMBA_CACHE_DIR=os.path.join(scratch, 'nb'),
               PYTHONPATH=REPO + ':' + os.path.join(HERE, 'harness'), OPENBLAS_NUM_THREADS='1', OMP_NUM_THREADS='1',
               MPLCONFIGDIR=scratch, TQDM_DISABLE='1', HOME=scratch, VERIF_TIER=TIER, VERIF_SEED=str(SEED), TMPDIR=scratch)
    with open(path) as f:
        head = f.read(400)
    if 'JIT: on' not in head:
        env['NUMBA_DISABLE_JIT'] = '1'
    out = os.path.join(scratch, 'out.json')
    cwd = os.path.join(scratch, 'cwd')
    os.makedirs(cwd, exist_ok=True)
    return subprocess.Popen([PY, path, out], cwd=cwd, env=env, stdout=open(os.path.join(scratch, 'stdout'), 'w'),
                            stderr=subprocess.STDOUT), out, scratch


def known_findings(prop):
    p = os.path.join(HERE, 'known_findings.json')
    if not os.path.isfile(p):
        return []
    with open(p) as f:
        return [k for k in json.load(f) if k.get('property') == prop and k.get('status') == 'known']


def main():
    prop = sys.argv[1]
    t0 = time.time()
    quick = TIER != 'thorough'
    limit = 800 if quick else 3000
    scratch = tempfile.mkdtemp(prefix='vchk_')
    try:
        return decide(prop, t0, quick, limit, scratch)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def decide(prop, t0, quick, limit, scratch):
    har = start_harness(prop, scratch)
    reg = load(prop)
    mod = reg.module
    jobs = []
    for q, c in reg.contracts.items():
        if not c.skip and not c.inline and (c.trusted is None):
            jobs.append((prop, 'function', q))
    for n, lm in reg.lemmas.items():
        if not lm.trusted:
            jobs.append((prop, 'lemma', n))
    ctx = mp.get_context('fork')
    results = []
    ncpu = min(8, os.cpu_count() or 2)
    if jobs:
        with ctx.Pool(min(ncpu, len(jobs)), maxtasksperchild=1) as p:
            for r in p.imap_unordered(gen, jobs, chunksize=1):
                results.append(r)
    results.sort(key=lambda r: (r['kind'], r['name']))
    flat, todo = [], []
    for r in results:
        for vc in r['vcs']:
            flat.append([r, vc, 'proved' if vc[3] is None else None, 0.0, ''])
            if vc[3] is not None:
                todo.append(len(flat) - 1)
    # first pass fast, then longer budgets only for what is left
    for tos in ((6,), (10, 10, 15, 10), (40, 40)):
        if not todo or time.time() - t0 > limit * 0.6:
            break
        left = []
        for ix, st, t, m in run_pool([(i, flat[i][1][3], tos) for i in todo], ncpu):
            flat[ix][3] += t
            flat[ix][2], flat[ix][4] = st, m
            if st == 'unknown':
                left.append(ix)
        todo = left[:40 if len(tos) == 1 else 12]        # hopeless: do not spend minutes on each
    crossed = {}
    if not quick:
        items = [(i, f[1][3]) for i, f in enumerate(flat) if f[1][3] is not None]
        n = ncpu
        with ctx.Pool(n) as p:
            for d in p.imap_unordered(cross_check, [items[k::n] for k in range(n)]):
                crossed.update(d)
    hres = {'cases': 0, 'failures': [], 'samples': [], 'error': None, 'bound': ''}
    if har:
        proc, outp, sc = har
        try:
            proc.wait(timeout=max(30, limit - (time.time() - t0)))
        except subprocess.TimeoutExpired:
            proc.kill()
            hres['error'] = 'harness did not finish'
        if os.path.isfile(outp):
            with open(outp) as f:
                hres.update(json.load(f))
        else:
            hres['error'] = hres['error'] or 'harness ended without result: ' + open(
                os.path.join(sc, 'stdout')).read()[-1500:]
    failed = [f for f in flat if f[2] != 'proved']
    undec = [r for r in results if r['undecided'] or r.get('vacuous')]
    known = known_findings(prop)
    kn, new = [], []
    for f in hres['failures']:
        hit = [k for k in known if k['id'] == f['id']]
        (kn if hit else new).append(f)
    for k in known:
        if any(f['id'] == k['id'] for f in kn):
            print('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
    verdict = 0
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    rp = os.path.join(HERE, 'evidence', 'replay-%s.json' % prop)
    if new or failed:
        verdict = 1
        with open(rp, 'w') as f:
            json.dump({'property': prop,
                       'failed_obligations': [{'obligation': x[1][0], 'where': x[1][1], 'kind': x[1][2],
                                               'result': x[2], 'goal': x[1][4], 'verifier_output': x[4]}
                                              for x in failed[:40]],
                       'failing_inputs': new[:20],
                       'replay_cmd': 'PYTHONPATH=/repo:/verif/harness %s %s/harness/%s.py out.json' % (
                           PY, HERE, prop.lower())}, f, indent=1)
        for x in failed[:10]:
            print('obligation failed: %s (%s) [%s]' % (x[1][0], x[1][1], x[2]))
        for x in new[:5]:
            print('failing input: %s' % json.dumps(x)[:600])
        print('VIOLATION property=%s replay=%s%s' % (prop, rp, '' if new else ' no-failing-input-found'))
    elif os.path.isfile(rp):
        os.unlink(rp)
    for r in undec:
        print('undecided by proof (bounded check decides): %s: %s' % (r['name'], r['undecided'] or r.get('vacuous')))
    if hres['error']:
        print('harness: %s' % hres['error'][:600])
    proved_fn = [r['name'] for r in results if not r['undecided'] and not r.get('vacuous') and
                 all(f[2] == 'proved' for f in flat if f[0] is r)]
    assumed = set(getattr(mod, 'ASSUME', []))
    for r in results:
        assumed |= set(r['assumed'])
        for n in r.get('notes', []):
            assumed.add(n)
    trusted = ['pyvc, the verification-condition generator in /verif/pyvc (Python semantics and library model)',
               'z3 %s' % z3v()]
    trusted += ['assumed contract: ' + c.short for c in list(reg.contracts.values()) + list(reg.externals.values())
                if c.trusted]
    level = getattr(mod, 'LEVEL', 'proof')
    ev = {'property': prop, 'tier': TIER, 'seed': SEED, 'level': level,
          'coverage': {
              'obligations': len(flat), 'discharged': sum(1 for f in flat if f[2] == 'proved'),
              'checker_cmd': 'python3-vt /verif/check.py %s' % prop,
              'trusted_base': trusted,
              'functions_under_contract': [r['name'] for r in results if r['kind'] == 'function'],
              'functions_proved': [n for n in proved_fn if ':' in n],
              'lemmas_proved': [n for n in proved_fn if ':' not in n],
              'inlined_functions': sorted({q for r in results for q in r['inlined']}),
              'undecided_functions': {r['name']: (r['undecided'] or r.get('vacuous')) for r in undec},
              'by_kind': count(f[1][2] for f in flat),
              'solved_by_evaluation': sum(1 for f in flat if f[1][3] is None),
              'solver_s': round(sum(f[3] for f in flat), 2),
              'vc_generation_s': round(sum(r['gen_s'] for r in results), 2),
              'second_prover': count(crossed.values()) if crossed else 'quick tier: not run',
              'explanation': getattr(mod, 'EXPLAIN', ''),
              'bounded_part': {'label': 'bounded, not counted as proved', 'bound': hres.get('bound', ''),
                               'cases': hres['cases'], 'error': hres['error']},
              'samples': (hres.get('samples') or [])[:5] + [f[1][0] for f in flat[:5]],
          },
          'assumptions': sorted(assumed),
          'wall_s': round(time.time() - t0, 1),
          'violations': len(new) + len(failed)}
    if level == 'exploration':
        bp = ev['coverage'].pop('bounded_part')
        ev['coverage'].update(evaluations=hres['cases'], distinct_nontrivial=hres.get('distinct', hres['cases']),
                              rule='bounded: %s; a case is non-trivial when its description is new' % bp['bound'],
                              error=bp['error'])
    with open(os.path.join(HERE, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    print('%s: %d/%d obligations discharged, %d functions, %d undecided, %d bounded cases, %.1f s' % (
        prop, ev['coverage']['discharged'], len(flat), len(ev['coverage']['functions_under_contract']), len(undec),
        hres['cases'], ev['wall_s']))
    if '-v' in sys.argv:
        for f in sorted(flat, key=lambda f: -f[3])[:15]:
            print('%.1fs %s %s' % (f[3], f[2], f[1][0]))
        for r in results:
            print(r['kind'], r['name'], 'gen %.1fs paths %s vcs %d %s' % (r['gen_s'], r.get('paths'), len(r['vcs']),
                                                                       r.get('trace', '')))
    if verdict == 0 and not flat and har is None:
        print('nothing was checked')
        return 2
    return verdict


def count(xs):
    d = {}
    for x in xs:
        d[x] = d.get(x, 0) + 1
    return d


def z3v():
    try:
        import z3
        return z3.get_version_string()
    except Exception:
        return ''


if __name__ == '__main__':
    if os.environ.get('PYTHONHASHSEED') != '0':        # the solvers see the same text on every run
        os.execve(sys.executable, [sys.executable] + sys.argv, dict(os.environ, PYTHONHASHSEED='0'))
    sys.exit(main())

"""Check runner: explores every case of a property symbolically, replays what the solver finds on the
project's own interpreter, validates sampled path models there, writes the evidence file.

usage: python3-vt -m symx.run PROPERTY [quick|thorough] [--case SUBSTR] [-v]
exit 0: held on everything explored; 1: VIOLATION printed; 2: inconclusive / error of the check.
"""
import importlib
import json
import multiprocessing
import os
import random
import subprocess
import sys
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
PYPY = os.environ.get('VERIF_PYTHON', '/opt/venv/bin/python')

from symx import lib as symlib          # noqa: E402

_LIB = None
_FUNCS = set()


def _monitor():
    mon = sys.monitoring
    tid = mon.PROFILER_ID
    try:
        mon.use_tool_id(tid, 'verif')
    except ValueError:
        return
    root = os.path.join(symlib.REPO, 'algebraixlib') + os.sep

    def start(code, off):
        if code.co_filename.startswith(root):
            _FUNCS.add('%s:%s' % (code.co_filename[len(root):], code.co_qualname))
        return mon.DISABLE
    mon.register_callback(tid, mon.events.PY_START, start)
    mon.set_events(tid, mon.events.PY_START)


def case_id(c):
    fn, params = c[0], c[1]
    return fn.__module__.split('.')[-1] + '.' + fn.__name__ + '(' + ','.join(
        '%s=%s' % (k, json.dumps(v, separators=(',', ':')) if not isinstance(v, str) else v)
        for k, v in sorted((params or {}).items())) + ')'


def _load_findings():
    p = os.path.join(HERE, 'known_findings.json')
    if os.path.exists(p):
        return json.load(open(p))
    return []


def run_case(args):
    idx, deadline, seed, nsamples, maxviol, findings = args
    from symx import engine as E
    from symx.symctx import Symbolic
    global _LIB
    fn, params = _CASES[idx][0], _CASES[idx][1]
    lib = _LIB
    eng = E.Engine(deadline=deadline)
    rnd = random.Random('%s/%s' % (seed, idx))
    res = {'idx': idx, 'violations': [], 'inconclusive': None, 'samples': [], 'covered': set(),
           'findings': set()}
    t0 = time.time()
    state = {}

    def path():
        ctx = Symbolic(lib, params, eng, findings)
        lib.ud.RaiseOnUndef.reset()
        reset = getattr(lib, 'reset_hook', None)
        if reset:
            reset()
        before = eng.checks
        try:
            fn(ctx)
        except E.PropertyViolated as v:
            vals = ctx.values(eng._model())
            res['violations'].append({'msg': v.msg, 'values': vals})
            if len(res['violations']) >= maxviol:
                raise E.Inconclusive('stop: violations')
            return
        except Exception as exc:      # an exception the harness did not expect
            try:
                vals = ctx.values(eng._model())
            except E.StopPath:
                raise
            tb = traceback.extract_tb(exc.__traceback__)
            where = '; '.join('%s:%s %s' % (os.path.basename(f.filename), f.lineno, f.name)
                              for f in tb[-4:])
            res['violations'].append({'msg': 'unexpected %s: %s [%s]' % (
                type(exc).__name__, str(exc)[:200], where), 'values': vals})
            if len(res['violations']) >= maxviol:
                raise E.Inconclusive('stop: violations')
            return
        finally:
            res['covered'] |= ctx.covered
            res['findings'] |= ctx.findings_hit
            lib.ud.RaiseOnUndef.reset()
        # reservoir sample of completed paths for validation on the real interpreter
        n = eng.completed
        if len(res['samples']) < nsamples:
            res['samples'].append(ctx.values(eng._model()))
        else:
            j = rnd.randrange(n + 1)
            if j < nsamples and rnd.random() < 0.5:
                res['samples'][j] = ctx.values(eng._model())

    try:
        eng.explore(path)
    except E.Inconclusive as e:
        if not str(e).startswith('stop:'):
            res['inconclusive'] = str(e)
    except BaseException as e:       # engine failure
        res['inconclusive'] = 'engine: %r %s' % (e, traceback.format_exc()[-1500:])
    res['wall'] = time.time() - t0
    for k in ('paths', 'completed', 'stopped', 'branches', 'forks', 'queries', 'q_sat', 'q_unsat',
              'solver_s', 'checks', 'obligations', 'decided_concrete', 'truncated'):
        res[k] = getattr(eng, k)
    res['funcs'] = set(_FUNCS)
    return res


def replay_batch(items, timeout):
    """items: list of dicts {module, fn, params, values, renames}; returns list of result dicts."""
    env = dict(os.environ)
    env['PYTHONPATH'] = symlib.REPO
    env['PYTHONHASHSEED'] = '0'
    env['PYTHONDONTWRITEBYTECODE'] = '1'
    env.pop('PYTHONHOME', None)
    p = subprocess.run([PYPY, os.path.join(HERE, 'symx', 'replay.py'), '--batch'],
                       input=json.dumps(items), capture_output=True, text=True, env=env,
                       timeout=timeout, cwd=HERE)
    if p.returncode != 0:
        raise RuntimeError('replay interpreter failed: ' + p.stderr[-2000:])
    return json.loads(p.stdout[p.stdout.index('@@RESULT') + 8:])


def main(argv):
    global _LIB, _CASES
    if argv[0] == '--setup':
        import z3
        symlib.load(True)
        print('z3 %s, package loads on %s; replay interpreter %s' % (z3.get_version_string(), sys.version.split()[0], PYPY))
        replay_batch([], 60)
        return 0
    prop = argv[0]
    rest = argv[1:]
    tier = os.environ.get('VERIF_TIER', 'quick')
    only = None
    verbose = False
    while rest:
        a = rest.pop(0)
        if a in ('quick', 'thorough'):
            tier = a
        elif a == '--case':
            only = rest.pop(0)
        elif a == '-v':
            verbose = True
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    sys.setrecursionlimit(5000)
    mod = importlib.import_module('harness.' + prop.lower())
    try:
        _LIB = symlib.load(True, getattr(mod, 'REAL_RDFLIB', False))
    except Exception:
        traceback.print_exc()
        print('ERROR property=%s: the package cannot be imported' % prop)
        return 2
    if hasattr(mod, 'setup'):
        mod.setup(_LIB, True)
    _CASES = list(mod.cases(tier))
    if only:
        _CASES = [c for c in _CASES if only in case_id(c)]
    budget = float(os.environ.get('VERIF_BUDGET', 780 if tier == 'quick' else 3 * 3600))
    deadline = t0 + budget
    findings = _load_findings()
    listed = frozenset(f['id'] for f in findings if f.get('property') == prop and f.get('status') == 'open')
    nproc = min(int(os.environ.get('VERIF_JOBS', os.cpu_count() or 8)), max(1, len(_CASES)))
    nsamples = 2 if tier == 'quick' else 4
    order = sorted(range(len(_CASES)), key=lambda i: -(_CASES[i][2] if len(_CASES[i]) > 2 else 1))
    _monitor()
    results = []
    confirmed = None
    unreproduced = []
    pool = multiprocessing.Pool(nproc, maxtasksperchild=40)
    try:
        it = pool.imap_unordered(run_case, [(i, deadline, seed, nsamples, 6, listed) for i in order])
        for r in it:
            results.append(r)
            if verbose:
                print('%6.2fs paths=%d q=%d %s%s%s' % (
                    r['wall'], r['paths'], r['queries'], case_id(_CASES[r['idx']]),
                    ' VIOL' + repr([v['msg'] for v in r['violations']][:3]) if r['violations'] else '',
                    ' INCONCLUSIVE ' + r['inconclusive'] if r['inconclusive'] else ''), flush=True)
            if r['violations'] and (confirmed is None or verbose):
                fn, params = _CASES[r['idx']][0], _CASES[r['idx']][1]
                items = [{'module': fn.__module__, 'fn': fn.__name__, 'params': params,
                          'values': v['values'], 'renames': 26, 'property': prop,
                          'symbolic_msg': v['msg']} for v in r['violations']]
                for it_, out in zip(items, replay_batch(items, 300)):
                    if out['status'] == 'violated':
                        it_['msg'] = out['msg']
                        it_['rename'] = out['rename']
                        if verbose:
                            print('   REPRODUCED:', out['msg'])
                            print('     ', json.dumps(it_['values']))
                        if confirmed is None:
                            confirmed = it_
                            confirmed['case'] = case_id(_CASES[r['idx']])
                    else:
                        unreproduced.append((case_id(_CASES[r['idx']]), it_['symbolic_msg'], out))
                if confirmed and not verbose:
                    break
    finally:
        pool.terminate()
        pool.join()

    t_explore = time.time() - t0
    inconclusive = [(case_id(_CASES[r['idx']]), r['inconclusive']) for r in results if r['inconclusive']]
    # validate sampled path models on the real interpreter
    validated = 0
    if confirmed is None:
        items, own = [], []
        for r in results:
            fn, params = _CASES[r['idx']][0], _CASES[r['idx']][1]
            for s in r['samples']:
                items.append({'module': fn.__module__, 'fn': fn.__name__, 'params': params,
                              'values': s, 'renames': 1, 'property': prop, 'symbolic_msg': '(path model)'})
                own.append(r['idx'])
        n = max(1, min(4, len(items) // 60 + 1))
        chunks = [items[i::n] for i in range(n)]
        from concurrent.futures import ThreadPoolExecutor
        with ThreadPoolExecutor(n) as ex:
            outs = list(ex.map(lambda c: replay_batch(c, 600) if c else [], chunks))
        for chunk, out in zip(chunks, outs):
            for it_, o in zip(chunk, out):
                if o['status'] == 'ok':
                    validated += 1
                elif o['status'] == 'violated' and not o.get('finding'):
                    if confirmed is None:
                        confirmed = it_
                        confirmed['msg'] = o['msg'] + ' (found while validating a path model)'
                        confirmed['rename'] = o['rename']
                        confirmed['case'] = it_['fn']
    wall = time.time() - t0
    tot = {k: sum(r[k] for r in results) for k in (
        'paths', 'completed', 'stopped', 'branches', 'forks', 'queries', 'q_sat', 'q_unsat',
        'solver_s', 'checks', 'obligations', 'decided_concrete')}
    funcs = sorted(set().union(*[r['funcs'] for r in results])) if results else []
    truncated = [case_id(_CASES[r['idx']]) for r in results if r['truncated']]
    vacuous = [case_id(_CASES[r['idx']]) for r in results
               if not r['violations'] and not r['inconclusive'] and (r['completed'] == 0 or r['checks'] == 0)]
    covered = set().union(*[r['covered'] for r in results]) if results else set()
    missing = sorted(set(getattr(mod, 'COVERS', ())) - covered) if not only and confirmed is None else []
    hits = set().union(*[r['findings'] for r in results]) if results else set()

    ev = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': 'model_checking',
        'coverage': {
            'states': tot['completed'],
            'transitions': tot['branches'],
            'traces_validated_against_impl': validated,
            'samples': [dict(case=case_id(_CASES[r['idx']]), model=r['samples'][0])
                        for r in results[:400:max(1, len(results) // 8)] if r['samples']][:8],
            'exhaustive': not inconclusive and not unreproduced and not vacuous and not truncated and confirmed is None,
            'undecided_cases': [c for c, _ in inconclusive] + [u[0] for u in unreproduced] + vacuous,
            'truncated_cases': [case_id(_CASES[r['idx']]) for r in results if r['truncated']],
            'cases': len(results), 'cases_total': len(_CASES),
            'paths_explored': tot['paths'], 'paths_infeasible': tot['stopped'],
            'decision_forks': tot['forks'],
            'solver_queries': tot['queries'], 'queries_sat': tot['q_sat'], 'queries_unsat': tot['q_unsat'],
            'solver_seconds': round(tot['solver_s'], 3),
            'assertions_reached': tot['checks'], 'assertions_sent_to_solver': tot['obligations'],
            'assertions_decided_by_path_condition': tot['decided_concrete'],
            'functions_encoded': funcs,
            'bounds': getattr(mod, 'BOUNDS', {}).get(tier, getattr(mod, 'BOUNDS', {})),
            'reachability_witnesses': sorted(covered),
            'known_findings_observed': sorted(hits),
            'meaning': 'states = completed symbolic paths (each stands for all values satisfying its '
                       'path condition); transitions = branch decisions put to the solver; traces = '
                       'path models re-run on the unmodified package under the project interpreter',
        },
        'assumptions': list(getattr(mod, 'ASSUMPTIONS', ())) + COMMON_ASSUMPTIONS,
        'wall_s': round(wall, 2),
        'violations': 1 if confirmed else 0,
    }
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    if not only:
        tmp = os.path.join(HERE, 'evidence', '.%s.%d.tmp' % (prop, os.getpid()))
        with open(tmp, 'w') as f:
            json.dump(ev, f, indent=1)
        os.replace(tmp, os.path.join(HERE, 'evidence', prop + '.json'))

    print('%s %s: %d cases, %d paths, %d branch decisions, %d queries (%.1fs solver), %d assertions, '
          '%d path models validated, %.1fs exploring, %.1fs' % (prop, tier, len(results), tot['paths'], tot['branches'],
                                               tot['queries'], tot['solver_s'], tot['checks'], validated, t_explore, wall))
    if confirmed:
        rd = os.path.join(HERE, 'evidence', 'replay')
        os.makedirs(rd, exist_ok=True)
        rp = os.path.join(rd, prop + '.json')
        json.dump(confirmed, open(rp, 'w'), indent=1)
        print('case: %s' % confirmed['case'])
        print('message: %s' % confirmed['msg'])
        print('replay with: PYTHONPATH=%s %s %s/symx/replay.py %s' % (symlib.REPO, PYPY, HERE, rp))
        print('VIOLATION property=%s replay=%s' % (prop, rp))
        return 1
    for f in findings:
        if f.get('property') == prop and f.get('status') == 'open':
            if f['id'] in hits:
                print('KNOWN-FINDING: property=%s %s' % (prop, f['what']))
    # Cases the engine could not decide (limits, a counterexample that the real code does not show) are
    # reported, and make the run "not exhaustive" in the evidence; the verdict of the decided cases
    # stands unless most of the property is undecided.
    undecided = set()
    for c, m, o in unreproduced:
        print('UNDECIDED counterexample did not reproduce on the real code: %s: %s (%s)' % (c, m, o))
        undecided.add(c)
    for c, m in inconclusive:
        print('UNDECIDED %s: %s' % (c, m))
        undecided.add(c)
    for c in vacuous:
        print('VACUOUS case %s' % c)
        undecided.add(c)
    for c in truncated:
        print('TRUNCATED (only some concrete values explored) %s' % c)
    if os.environ.get('VERIF_STRICT'):
        undecided.update(truncated)
    bad = 2 * len(undecided) > len(_CASES) or bool(os.environ.get('VERIF_STRICT') and undecided)
    for m in missing:
        print('MISSING reachability witness %s' % m)
        bad = bad or not undecided
    if len(results) != len(_CASES):
        print('ERROR not all cases ran')
        bad = True
    return 2 if bad else 0


COMMON_ASSUMPTIONS = [
    'hash() inside the package is replaced by a constant during exploration, so containers decide '
    'membership through the package\'s own equality (iteration order is then insertion order, as '
    'under the project interpreter); hash consistency itself is property C01',
    'Python integers are z3 unbounded integers; symbolic strings are opaque (equality only)',
    'exploration runs on CPython 3.12 with the collections ABC aliases restored and Counter equality '
    'as in Python < 3.10; every counterexample is replayed on the project interpreter before it is reported',
]

if __name__ == '__main__':
    # run under the importable name so that workers and harness share one module
    from symx import run as _self
    sys.exit(_self.main(sys.argv[1:]))

"""Runner of one check:  python -m symx.main C04 [quick|thorough]"""
import importlib
import json
import multiprocessing as mp
import os
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('PVF_REPO', '/repo')


def _paths():
    if VERIF not in sys.path:
        sys.path.insert(0, VERIF)
    if REPO in sys.path:
        sys.path.remove(REPO)
    sys.path.insert(0, REPO)


def _init_sym(check):
    _paths()
    sys.setrecursionlimit(20000)
    import warnings
    warnings.simplefilter('ignore')
    from symx import npshim
    mod = importlib.import_module('checks.' + check.lower())
    if getattr(mod, 'SHAPELY', False):
        from symx import shapelyshim
        shapelyshim.install()
    if getattr(mod, 'PANDAS', False):
        from symx import pandasshim
        pandasshim.install()
    extra = getattr(mod, 'EXTRA_MODULES', None)
    npshim.install(extra() if extra else None)
    pre = getattr(mod, 'PRELOAD', None)
    if pre:
        pre(True)


def _init_conc(check):
    _paths()
    import warnings
    warnings.simplefilter('ignore')
    mod = importlib.import_module('checks.' + check.lower())
    pre = getattr(mod, 'PRELOAD', None)
    if pre:
        pre(False)


def _run_sym(args):
    check, tier, name, seed = args
    try:
        from symx import core, solve, harness
        core.reset()
        mod = importlib.import_module('checks.' + check.lower())
        sc = [s for s in mod.scenarios(tier) if s['name'] == name][0]
        for k in list(solve.STATS):
            solve.STATS[k] = type(solve.STATS[k])(0)
        fn = sc['fn']
        kw = sc.get('kw', {})
        opts = dict(sc.get('opts', {}))
        opts.setdefault('deadline', 200. if tier == 'quick' else 1500.)
        core.FUN_IMPL.clear()
        ex = harness.Explorer(lambda h: fn(h, **kw), seed=seed, **opts)
        ex.explore()
        s = ex.summary()
        s['name'] = name
        return s
    except BaseException as e:            # report, never hang the pool
        return {'name': name, 'fatal': repr(e),
                'tb': traceback.format_exc()}


def run_concrete(check, tier, name, model, rng_seed=None):
    """run a scenario on the real code with concrete inputs"""
    from symx import harness
    import random
    mod = importlib.import_module('checks.' + check.lower())
    sc = [s for s in mod.scenarios(tier) if s['name'] == name][0]
    rng = random.Random(rng_seed) if rng_seed is not None else None
    h = harness.ConcH(dict(model), rng)
    out = {'status': 'ok', 'results': [], 'model': h.model}
    try:
        import numpy as np
        with np.errstate(all='ignore'):
            sc['fn'](h, **sc.get('kw', {}))
    except harness.Skip:
        out['status'] = 'skip'
    except Exception as e:
        out['status'] = 'exception'
        out['error'] = type(e).__name__ + ': ' + str(e)[:300]
        out['tb'] = traceback.format_exc(limit=-5)
    out['results'] = h.results
    out['notes'] = h.notes
    return out


def _run_conc(args):
    try:
        return run_concrete(*args)
    except BaseException as e:
        return {'status': 'fatal', 'error': repr(e),
                'tb': traceback.format_exc(), 'results': []}


def known_findings():
    p = os.path.join(VERIF, 'known_findings.jsonl')
    out = []
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line and not line.startswith('#'):
                out.append(json.loads(line))
    return out


def main(argv=None):
    argv = argv or sys.argv[1:]
    check = argv[0]
    tier = argv[1] if len(argv) > 1 else os.environ.get('VERIF_TIER', 'quick')
    only = argv[2] if len(argv) > 2 else None
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    os.environ.setdefault('PYTHONDONTWRITEBYTECODE', '1')
    sys.dont_write_bytecode = True
    verbose = bool(os.environ.get('SYMX_VERBOSE'))
    t0 = time.time()
    _paths()
    mod = importlib.import_module('checks.' + check.lower())
    scs = mod.scenarios(tier)
    if only:
        scs = [s for s in scs if only in s['name']]
    ctx = mp.get_context('fork')
    nproc = min(8, len(scs)) or 1
    results = []
    budget = float(os.environ.get('SYMX_BUDGET',
                                  '600' if tier == 'quick' else '3300'))
    pool = ctx.Pool(nproc, _init_sym, (check,), maxtasksperchild=8)
    cpool = ctx.Pool(8, _init_conc, (check,))
    pend = [(s['name'], pool.apply_async(
        _run_sym, ((check, tier, s['name'], seed),))) for s in scs]
    hung, got, early, stop = [], {}, [], False
    known = [k for k in known_findings() if k.get('property') == check
             and k.get('status') == 'known']
    while len(got) < len(pend) and not stop:
        for name, p in pend:
            if name not in got and p.ready():
                r = got[name] = p.get()
                if verbose:
                    brief(r)
                # replay counterexamples at once: one that reproduces ends
                # the exploration
                if not known and not verbose:
                    for c in r.get('cands', [])[:4]:
                        for m in c['models'][:2]:
                            early.append((c['name'], cpool.apply_async(
                                _run_conc, ((check, tier, name, m),))))
        for cname, p in early:
            if p.ready():
                o = p.get()
                if o['status'] == 'exception' or any(
                        not x[1] for x in o['results']):
                    stop = True
        early = [e for e in early if not e[1].ready()]
        if time.time() > t0 + budget:
            break
        time.sleep(.02)
    for name, p in pend:
        r = got.get(name)
        if r is None:
            hung.append(name)
            r = {'name': name, 'fatal': 'not explored after a violation'
                 if stop else 'time budget exhausted'}
        results.append(r)
    pool.terminate()
    # --- replay on the real code
    jobs = []
    for r in results:
        for ci, c in enumerate(r.get('cands', [])):
            for m in c['models']:
                jobs.append(('cand', r['name'], c['name'], m, None))
        for e in r.get('exceptions', []):
            if e['model'] is not None:
                jobs.append(('exc', r['name'], e['kind'] + ': ' + e['error'],
                             e['model'], None))
        for pm in r.get('path_models', []):
            jobs.append(('val', r['name'], None, pm['model'], pm))
    outs = []
    pend = [(j, cpool.apply_async(_run_conc,
                                  ((check, tier, j[1], j[3]),))) for j in jobs]
    for j, p in pend:
        try:
            outs.append((j, p.get(timeout=max(60., t0 + budget + 90
                                              - time.time()))))
        except mp.TimeoutError:
            outs.append((j, {'status': 'hang', 'results': []}))
    cpool.terminate()
    code = report(check, tier, seed, mod, scs, results, outs, hung, t0)
    sys.stdout.flush()
    os._exit(code)


def brief(r):
    if 'fatal' in r:
        print('  [%s] FATAL %s' % (r['name'], r['fatal']), r.get('tb', ''))
        return
    print('  [%s] paths=%d sat=%d abort=%d complete=%s q=%d wall=%.1f '
          'cands=%d undec=%d exc=%d unkfeas=%d' % (
              r['name'], r['paths'], r['sat_paths'], r['aborted'],
              r['complete'], r['queries'], r['wall'], len(r['cands']),
              len(r['undecided']), len(r['exceptions']), r['unknown_feas']))
    for c in r['cands'][:3]:
        print('     cand', c['name'], c['models'][:1])
    und = {}
    for u in r['undecided']:
        und[u['name']] = und.get(u['name'], 0) + 1
    if und:
        print('     undecided', und)
    for e in r['exceptions'][:1]:
        print('     exc (%d)' % len(r['exceptions']), e['kind'], e['error'],
              e['tb'][-1500:])
    sys.stdout.flush()


def _close(a, b):
    if a is None or b is None:
        return True
    if a != a and b != b:
        return True
    return abs(a - b) <= 1e-5 * (1 + abs(a) + abs(b))


def report(check, tier, seed, mod, scs, results, outs, hung, t0):
    prop = check
    problems = []
    violations = []
    kf = [k for k in known_findings() if k.get('property') == prop
          and k.get('status') == 'known']
    kf_hits = {}
    # replay classification
    by_cand = {}
    validated = mismatched = 0
    samples = []
    rep_dir = os.path.join(VERIF, 'replays')
    for j, o in outs:
        kind, sname, cname, model, pm = j
        bad = [x for x in o['results'] if not x[1]]
        if kind == 'cand':
            key = (sname, cname)
            ok = any(x[0] == cname for x in bad)
            exc = o['status'] == 'exception'
            # another clause failing on the same input is a violation as well
            by_cand.setdefault(key, []).append((ok or bool(bad) or exc, j, o))
        elif kind == 'exc':
            key = (sname, 'no exception')
            by_cand.setdefault((sname, cname), []).append(
                (o['status'] == 'exception' or bool(bad), j, o))
        else:
            if o['status'] in ('exception',) or bad:
                key = (sname, bad[0][0] if bad else 'exception')
                by_cand.setdefault(key, []).append((True, j, o))
                continue
            if o['status'] == 'skip' or o['status'] in ('hang', 'fatal'):
                if o['status'] == 'fatal':
                    problems.append('replay fatal %s %s' % (
                        sname, o.get('error')))
                continue
            vals = pm['vals']
            if vals is None:
                continue
            conc = o['results']
            names_s = [v[0] for v in vals]
            names_c = [c[0] for c in conc]
            if names_s != names_c:
                if not any(v[1] is None for v in vals) \
                        and pm['slack'] > 1e-6:
                    mismatched += 1
                    samples.append({'mismatch': 'trace', 'scenario': sname})
                continue
            dif = [(v, c) for v, c in zip(vals, conc)
                   if not (_close(v[1], c[2]) and _close(v[2], c[3]))]
            if dif and pm['slack'] > 1e-6:
                mismatched += 1
                if len(samples) < 8:
                    samples.append({'mismatch': [dif[0][0], dif[0][1]],
                                    'scenario': sname, 'model': model})
            elif not dif:
                validated += 1
                if len(samples) < 4:
                    samples.append({'scenario': sname, 'model': model,
                                    'checks': len(conc)})
    spurious = []
    for key, lst in by_cand.items():
        hit = [x for x in lst if x[0]]
        if not hit:
            spurious.append(key)
            continue
        _, j, o = hit[0]
        bad = [x for x in o['results'] if not x[1]]
        entry = None
        for k in kf:
            if k['scenario'] in ('*', key[0]) and all(
                    any(pat in (b[0] if b else '') for pat in k['checks'])
                    for b in (bad or [('exception',)])):
                entry = k
                break
        if entry is not None:
            kf_hits.setdefault(entry['what'], []).append(key)
            continue
        os.makedirs(rep_dir, exist_ok=True)
        path = os.path.join(rep_dir, '%s-%d.json' % (prop, len(violations)))
        with open(path, 'w') as f:
            json.dump({'property': prop, 'tier': tier, 'scenario': key[0],
                       'check': key[1], 'model': j[3],
                       'failing': bad[:20], 'status': o['status'],
                       'error': o.get('error'), 'tb': o.get('tb')}, f,
                      indent=1)
        violations.append({'scenario': key[0], 'check': key[1],
                           'replay': path, 'failing': [str(b) for b in
                                                       bad[:3]],
                           'error': o.get('error')})
    # aggregate
    agg = {'paths': 0, 'sat_paths': 0, 'queries': 0, 'obligations': 0,
           'discharged': 0, 'exact': 0, 'solver_s': 0., 'unsat': 0, 'sat': 0,
           'unknown': 0, 'linear_unsat': 0, 'identities_confirmed': 0,
           'identities_open': 0}
    funcs = set()
    undecided = []
    incomplete = []
    per = []
    for r in results:
        if r['name'] in hung:
            continue
        if 'fatal' in r:
            problems.append('%s: %s' % (r['name'], r['fatal']))
            if r.get('tb'):
                print(r['tb'])
            continue
        agg['paths'] += r['paths']
        agg['sat_paths'] += r['sat_paths']
        agg['queries'] += r['queries']
        agg['identities_confirmed'] += r['identities'][0]
        agg['identities_open'] += r['identities'][1]
        for n, (p, e, tot) in r['checks'].items():
            agg['obligations'] += tot
            agg['discharged'] += p
            agg['exact'] += e
        for k in ('solver_s', 'unsat', 'sat', 'unknown', 'linear_unsat'):
            agg[k] += r['stats'][k]
        funcs.update(r['funcs'])
        for u in r['undecided']:
            undecided.append(dict(u, scenario=r['name']))
        if not r['complete'] and not r['cands']:
            incomplete.append(r['name'])
        if r['sat_paths'] == 0 and (r['complete'] or r['cands']):
            problems.append('%s: vacuous (no satisfiable path)' % r['name'])
        if not r['checks'] and not r['exceptions']:
            problems.append('%s: no obligation reached' % r['name'])
        for e in r['exceptions']:
            if e['kind'] == 'symerror':
                problems.append('%s: not encodable: %s %s' % (
                    r['name'], e['error'], e['tb'][-800:]))
                break
        per.append({'scenario': r['name'], 'paths': r['paths'],
                    'obligations': sum(v[2] for v in r['checks'].values()),
                    'wall_s': round(r['wall'], 2),
                    'complete': r['complete']})
    limits = []          # what the solver left open
    for key in spurious:
        limits.append('counterexample does not reproduce: %s / %s' % key)
    if mismatched:
        problems.append('%d path models evaluate differently in encoding and '
                        'real code' % mismatched)
    if not validated and not violations:
        problems.append('no path was validated against the real code')
    hard = [u for u in undecided if not u['slices_unsat']]
    if hard:
        limits.append('undecided obligations: %s' % sorted(
            set((u['scenario'], u['name']) for u in hard))[:10])
    if incomplete:
        limits.append('exploration incomplete: %s' % incomplete)
    if hung:
        limits.append('not explored (time budget or after a violation): '
                      '%s' % hung)
    # the verdict is about what was explored; too little of it is no verdict
    if limits and (2 * (agg['obligations'] - len(undecided))
                   < agg['obligations']
                   or 2 * (len(incomplete) + len(hung)) > len(scs)):
        problems.append('less than half of the obligations decided')
    meta = getattr(mod, 'META', {})
    ev = {
        'property': prop, 'tier': tier, 'seed': seed,
        'level': meta.get('level', 'model_checking'),
        'coverage': {
            'states': max(1, agg['obligations']),
            'transitions': max(1, agg['queries']),
            'traces_validated_against_impl': validated,
            'samples': samples or ['none'],
            'scenarios': len(scs), 'symbolic_paths': agg['paths'],
            'satisfiable_paths': agg['sat_paths'],
            'obligations': agg['obligations'],
            'obligations_discharged': agg['discharged'],
            'discharged_exactly': agg['exact'],
            'equations_confirmed_by_solver': agg['identities_confirmed'],
            'equations_by_normal_form_only': agg['identities_open'],
            'not_decided': limits,
            'undecided': undecided[:50],
            'undecided_count': len(undecided),
            'solver_queries': agg['queries'],
            'solver_unsat': agg['unsat'], 'solver_sat': agg['sat'],
            'solver_unknown': agg['unknown'],
            'solver_seconds': round(agg['solver_s'], 2),
            'functions_encoded': sorted(funcs),
            'bounds': meta.get('bounds', ''),
            'outside': meta.get('outside', ''),
            'per_scenario': per[:200],
            'explanation': 'states = proof obligations reached on the '
            'symbolic paths, transitions = solver queries',
        },
        'wall_s': round(time.time() - t0, 2),
        'assumptions': meta.get('assumptions', []),
        'violations': [v['check'] + ' @ ' + v['scenario']
                       for v in violations],
    }
    d = os.path.join(VERIF, 'evidence')
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    print('%s %s: scenarios=%d paths=%d obligations=%d discharged=%d '
          '(exact %d) queries=%d solver=%.1fs validated=%d undecided=%d '
          'wall=%.1fs' % (prop, tier, len(scs), agg['paths'],
                          agg['obligations'], agg['discharged'],
                          agg['exact'], agg['queries'], agg['solver_s'],
                          validated, len(undecided), time.time() - t0))
    for u in sorted(set((u['scenario'], u['name']) for u in undecided)):
        print('UNDECIDED (decided on slices only) %s %s' % u)
    for w in limits:
        print('NOT DECIDED:', w)
    for w in kf_hits:
        print('KNOWN-FINDING: property=%s %s' % (prop, w))
    for p in problems:
        print('PROBLEM:', p)
    if violations:
        for v in violations:
            print('  violated: %s @ %s %s %s' % (
                v['check'], v['scenario'], v['failing'][:1],
                v['error'] or ''))
        print('VIOLATION property=%s replay=%s' % (
            prop, violations[0]['replay']))
        return 1
    if problems:
        return 2
    return 0


if __name__ == '__main__':
    main()

"""python -m vc.check PROP [--tier quick|thorough]
   exit 0: every obligation holds on /repo's current tree (or, where undecided, nothing was found by the bounded stand-in)
   exit 1: a VIOLATION line"""
import sys, os, json, time, subprocess, concurrent.futures as cf
from . import env as E
from .props_meta import META

SRC = os.environ.get('VC_REPO_SRC', '/repo/src')
T0 = time.time()


def launch(args, env, timeout):
    try:
        p = subprocess.run([E.PY, '-X', 'faulthandler', '-m', *args], env=env, cwd=E.ROOT, capture_output=True, text=True, timeout=timeout)
        return p.returncode, (p.stdout + p.stderr)[-3000:]
    except subprocess.TimeoutExpired:
        return -9, 'timeout'


def load(path, default):
    try:
        with open(path) as f: return json.load(f)
    except Exception:
        return default


def main():
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in sys.argv: tier = sys.argv[sys.argv.index('--tier') + 1]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    meta = META[prop]
    thorough = tier == 'thorough'
    env, cleanup = E.setup()
    try:
        return check(prop, tier, seed, meta, thorough, env)
    finally:
        cleanup()


def check(prop, tier, seed, meta, thorough, env):
    off = env['VC_OFF']
    env['VC_JOBS'] = '6'
    scale = 3.0 if thorough else 1.0
    n_rand = 6 if thorough else 3
    rand_s = meta.get('rand_s', 20) * (8 if thorough else 1)
    maxcases = meta.get('maxcases', 400000) * (10 if thorough else 1)
    pool = cf.ThreadPoolExecutor(12)
    symf = f'{off}/sym.json'
    fut_sym = pool.submit(launch, ['vc.worker_sym', prop, symf, str(scale)], env, 780 if not thorough else 5400)
    def rand(i, secs, only='', sd=seed):
        out = f'{off}/rand_{i}_{sd}_{abs(hash(only)) % 10**6}.json'
        d = f'{off}/scratch/r{i}_{sd}'
        os.makedirs(d, exist_ok=True)
        e = dict(env, VC_SCRATCH=d)
        rc, txt = launch(['vc.worker_conc', 'random', prop, out, str(sd), str(secs), str(maxcases), str(i), only], e, secs + 240)
        r = load(out, None)
        if r is None: r = {'cases': 0, 'checks': 0, 'distinct': 0, 'discarded': 0, 'failures': [], 'errors': [{'harness': 'worker', 'error': txt}], 'per': {}, 'samples': []}
        return r
    futs = [pool.submit(rand, i, rand_s) for i in range(n_rand)]
    rands = [f.result() for f in futs]
    rc, txt = fut_sym.result()
    sym = load(symf, None)
    if sym is None:
        sym = [{'harness': f'{prop}:all', 'verdict': 'undecided', 'notes': [f'symbolic worker: {txt[-300:]}'], 'vcs': 0, 'obligations': {}, 'cex': [],
                'paths': 0, 'solver_s': 0, 'queries': 0, 'wall_s': 0, 'bounds': [], 'covered': [], 'functions': []}]
    failures = [f for r in rands for f in r['failures']]
    def replay(cases):
        cf_, out = f'{off}/cases.json', f'{off}/replay.json'
        json.dump(cases, open(cf_, 'w'))
        launch(['vc.worker_conc', 'replay', prop, out, cf_], env, 300)
        return load(out, {'failures': [], 'errors': []})['failures']
    # every failure is run again, in a fresh process, before it is believed
    ends = [f for f in failures if f['label'] != 'it comes to an end']
    failures = ends[:20] + [f for f in failures if f not in ends][:3 if not ends else 1]
    confirmed = replay([{'harness': f['harness'], 'values': f['values']} for f in failures]) if failures else []
    refuted = [s for s in sym if s['verdict'] == 'refuted']
    no_input = []
    aux_failed = any(o['sat'] for s in sym for l, o in s['obligations'].items() if l.startswith('aux:'))
    for s in refuted:
        if any(f['harness'] == s['harness'] for f in confirmed): continue
        cases = [{'harness': s['harness'], 'values': c['model'], 'strict': True} for c in s['cex']]
        got = replay(cases)
        if got:
            confirmed += got[:1]
            continue
        if aux_failed or not s['cex'] or all(not c.get('precise', True) for c in s['cex']):
            s['verdict'] = 'undecided'  # refuted under hypotheses which do not hold or which were over-approximated
            continue
        no_input.append(s)
    undecided = [s for s in sym if s['verdict'] in ('undecided', 'vacuous')]
    extra = []
    want = [s['harness'] for s in undecided + no_input]
    left = (700 if not thorough else 5000) - (time.time() - T0)
    if want and not confirmed and left > 60:
        # the bounded stand-in for what was not decided: more of the same search, on those contracts alone
        per = min(40 * (4 if thorough else 1), left / max(1, len(want)) * 0.8, 240 / len(want) if not thorough else 1e9)
        per = max(per, 4)
        jobs = []
        for k in want:
            for i in range(2):
                jobs.append(pool.submit(rand, 100 + i, per, k, seed + 7919))
        deadline = T0 + (800 if not thorough else 6000)
        for j in jobs:
            try: extra.append(j.result(timeout=max(1, deadline - time.time())))
            except cf.TimeoutError: pass
        fs = [f for r in extra for f in r['failures']]
        if fs: confirmed += replay([{'harness': f['harness'], 'values': f['values']} for f in fs[:10]])
    no_input = [s for s in no_input if not any(f['harness'] == s['harness'] for f in confirmed)]
    rands += extra
    # ------------------------------------------------------------------ report
    known = set()
    for r in rands:
        for k in r.get('known', []): known.add(k)
    viol = 0
    os.makedirs(f'{E.ROOT}/replay', exist_ok=True)
    for i, f in enumerate(confirmed[:5]):
        path = f'{E.ROOT}/replay/{prop}_{i}.json'
        json.dump({'property': prop, 'harness': f['harness'], 'obligation': f['label'], 'values': f['values'], 'strict': f.get('strict', False), 'detail': f['detail'],
                   'replay': f'cd {E.ROOT} && bash run.sh replay {path}'}, open(path, 'w'), indent=1, default=str)
        print(f'{prop}: obligation failed on the real code: {f["harness"]} / {f["label"]}')
        print('   ' + str(f['detail'])[-600:].replace('\n', '\n   '))
        print(f'VIOLATION property={prop} replay={path}')
        viol += 1
    if not viol:
        for i, s in enumerate(no_input[:5]):
            lab = next((l for l, o in s['obligations'].items() if o['sat']), '?')
            path = f'{E.ROOT}/replay/{prop}_obl{i}.json'
            json.dump({'property': prop, 'harness': s['harness'], 'obligation': lab, 'counter_models': s['cex'], 'note': 'refuted by the solver; no failing input found on the real code'},
                      open(path, 'w'), indent=1, default=str)
            print(f'{prop}: obligation refuted: {s["harness"]} / {lab}')
            print(f'VIOLATION property={prop} replay={path} no-failing-input-found')
            viol += 1
    write_evidence(prop, tier, seed, meta, sym, rands, viol)
    n = sum(s['vcs'] for s in sym)
    print(f'{prop}: {len(sym)} harnesses, {sum(1 for s in sym if s["verdict"] == "proved")} proved, '
          f'{len([s for s in sym if s["verdict"] in ("undecided", "vacuous")])} undecided, {n} VCs; bounded search: {sum(r["cases"] for r in rands)} cases; {time.time() - T0:.0f} s')
    for s in undecided: print(f'   undecided (bounded stand-in used): {s["harness"]}: {s["notes"][:1]}')
    errs = [e for r in rands for e in r['errors']]
    for e in errs[:3]: print(f'   harness error: {e.get("harness")}: {str(e.get("error"))[:200]}')
    for line in known_lines(prop, known): print(line)
    return 1 if viol else 0


def known_lines(prop, hit):
    """findings recorded in known_findings.json; those with an id when their input was met and still fails"""
    kf = load(f'{E.ROOT}/known_findings.json', {'findings': []})
    return [f'KNOWN-FINDING: property={prop} {f["what"]}' for f in kf['findings'] if f['property'] == prop and f.get('status') == 'open' and ('id' not in f or f['id'] in hit)]


def write_evidence(prop, tier, seed, meta, sym, rands, viol):
    fin = [s for s in sym if not s['bounds']]
    bnd = [s for s in sym if s['bounds']]
    def count(ss, k): return sum(o[k] for s in ss for o in s['obligations'].values())
    funcs = sorted({f for s in sym for f in s['functions']})
    per_f = {}
    for s in sym:
        for f in s['functions']: per_f.setdefault(f, []).append(s['verdict'] + (' (bounded)' if s['bounds'] else ''))
    cases = sum(r['cases'] for r in rands)
    proved = [s for s in fin if s['verdict'] == 'proved']
    cov = {
        'obligations': count(fin, 'vcs'), 'discharged': count(fin, 'ok'),
        'checker_cmd': f'bash run.sh check {prop} (vc generator over the instrumented source; z3 {z3v()})',
        'trusted_base': meta.get('trusted', []) + ['vc/ (the verification-condition generator and its instrumenter)', 'z3', 'CPython semantics of the operations the instrumenter leaves native'],
        'contracts': [{'harness': s['harness'], 'verdict': s['verdict'], 'paths': s['paths'], 'vcs': s['vcs'], 'solver_s': s['solver_s'], 'bounds': s['bounds'],
                       'obligations': {k: f"{o['ok']}/{o['vcs']}" for k, o in s['obligations'].items()}, 'notes': s['notes'][:3]} for s in sym],
        'functions_under_contract': {f: sorted(set(v)) for f, v in per_f.items()},
        'harnesses_proved_unbounded': len(proved), 'harnesses_bounded': len(bnd), 'bounded_vcs': count(bnd, 'vcs'), 'bounded_vcs_discharged': count(bnd, 'ok'),
        'solver_s': round(sum(s['solver_s'] for s in sym), 2), 'solver_queries': sum(s['queries'] for s in sym),
        'evaluations': cases, 'distinct_nontrivial': sum(r['distinct'] for r in rands),
        'rule': 'bounded stand-in: the same contracts evaluated on random inputs on the uninstrumented code; a case is one input inside the precondition, distinct by its input values',
        'samples': [x for r in rands[:1] for x in r['samples']][:6],
        'bounded_search_checks': sum(r['checks'] for r in rands),
    }
    if meta['level'] == 'other':
        cov['explanation'] = meta.get('explanation', '')
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': meta['level'], 'coverage': cov,
          'assumptions': meta.get('assumptions', []), 'wall_s': round(time.time() - T0, 2), 'violations': viol}
    os.makedirs(f'{E.ROOT}/evidence', exist_ok=True)
    with open(f'{E.ROOT}/evidence/{prop}.json', 'w') as f: json.dump(ev, f, indent=1, default=str)


def z3v():
    try:
        sys.path.append(E.VTSITE)
        import z3
        return z3.get_version_string()
    except Exception:
        return '?'


if __name__ == '__main__':
    try:
        rc = main()
    except Exception:
        import traceback
        traceback.print_exc()
        rc = 3
    sys.stdout.flush()
    os._exit(rc)

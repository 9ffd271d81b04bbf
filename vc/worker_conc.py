"""concrete modes on the plain package.
   random:  python -m vc.worker_conc random PROP OUT.json SEED SECONDS MAXCASES WORKER [only]
   replay:  python -m vc.worker_conc replay PROP OUT.json CASES.json      (list of {harness, values})
"""
import sys, os, json, time, random, importlib, traceback, hashlib, signal
from .env import VTSITE
sys.path.append(VTSITE)
from . import api
SRC = os.environ.get('VC_REPO_SRC', '/repo/src')


def innermost(exc):
    tb, last = exc.__traceback__, None
    while tb is not None:
        last, tb = tb, tb.tb_next
    return last.tb_frame.f_code.co_filename if last else ''


def in_repo(exc):
    """did the exception come out of the package (or something the package called)?"""
    tb = exc.__traceback__
    files = []
    while tb is not None:
        files.append(tb.tb_frame.f_code.co_filename)
        tb = tb.tb_next
    for f in reversed(files):
        if f.startswith(SRC): return True
        if '/props/' in f or '/verif/vc/' in f or '/vc/api' in f: return False
    return False


HITS = set()   # recorded findings met


class Endless(BaseException):
    """one case has used far more time of the processor than any case does"""
LIMIT_S = float(os.environ.get('VC_CASE_S', '25'))


def too_long(*a): raise Endless('')


def once(h, rng, values, strict=False):
    """-> (status, label, detail, values, checks)"""
    vc = api.Concrete(rng, values)
    vc.strict = strict
    try:
        signal.signal(signal.SIGPROF, too_long)
        signal.setitimer(signal.ITIMER_PROF, LIMIT_S, 5)
        try: h.fn(vc)
        finally: signal.setitimer(signal.ITIMER_PROF, 0)
        HITS.update(vc.hits)
    except Endless as e:
        tb = ''.join(traceback.format_exception(e)[-6:])[-1500:]
        if in_repo(e): return 'fail', 'it comes to an end', tb, vc.values, vc.checks
        return 'error', f'more than {LIMIT_S} s for one case', tb, vc.values, vc.checks
    except api.Discard:
        return 'discard', None, None, vc.values, vc.checks
    except api.Failed as f:
        return 'fail', f.label, str(f.detail)[:1500], vc.values, vc.checks
    except Exception as e:
        tb = ''.join(traceback.format_exception(e)[-4:])[-1500:]
        if in_repo(e):
            return 'fail', f'no unexpected {type(e).__name__}', tb, vc.values, vc.checks
        return 'error', f'{type(e).__name__}: {e}', tb, vc.values, vc.checks
    return 'ok', None, None, vc.values, vc.checks


def quiet():
    from loguru import logger
    logger.remove()
    import logging
    logging.disable(logging.CRITICAL)


def main():
    mode, prop, out = sys.argv[1:4]
    sys.setrecursionlimit(5000)
    res = {'cases': 0, 'checks': 0, 'distinct': 0, 'discarded': 0, 'failures': [], 'errors': [], 'per': {}, 'samples': []}
    try:
        quiet()
        importlib.import_module(f'props.{prop.lower()}')
    except BaseException as e:
        res['errors'].append({'harness': 'import', 'error': f'{type(e).__name__}: {e}', 'tb': traceback.format_exc()[-1500:]})
        json.dump(res, open(out, 'w')); return
    if mode == 'replay':
        cases = json.load(open(sys.argv[4]))
        for c in cases:
            h = api.HARNESSES.get(c['harness'])
            if h is None: continue
            st, label, detail, vals, n = once(h, random.Random(0), c['values'], bool(c.get('strict')))
            res['cases'] += 1
            (res['failures'] if st == 'fail' else res['errors'] if st == 'error' else []).append(
                {'harness': c['harness'], 'label': label, 'detail': detail, 'values': vals, 'strict': bool(c.get('strict'))})
            if st == 'fail' and c.get('stop'): break
        json.dump(res, open(out, 'w'), default=str); return
    seed, seconds, maxcases, worker = int(sys.argv[4]), float(sys.argv[5]), int(sys.argv[6]), int(sys.argv[7])
    only = sys.argv[8] if len(sys.argv) > 8 else ''
    hs = [(k, h) for k, h in api.HARNESSES.items() if h.prop == prop and h.conc and only in k]
    tw = sum(h.weight for _, h in hs) or 1
    seen = set()
    t_start = time.time()
    # several rounds, so that every harness gets its share even when some are slow
    rounds = 4
    live = dict(hs)
    for rd in range(rounds):
        for k, h in hs:
            if k not in live: continue
            rng = random.Random(f'{seed}/{worker}/{rd}/{k}')
            t_end = time.time() + seconds / rounds * h.weight / tw
            n = errs = 0
            lim = max(1, int(maxcases / rounds * h.weight / tw))
            while n < lim and time.time() < t_end:
                n += 1
                st, label, detail, vals, ch = once(h, rng, None)
                res['cases'] += 1
                res['checks'] += ch
                per = res['per'].setdefault(k, {'cases': 0, 'ok': 0, 'discard': 0, 'error': 0, 'fail': 0})
                per['cases'] += 1
                per[st] += 1
                if st == 'discard': res['discarded'] += 1
                elif st == 'ok':
                    d = hashlib.md5((k + repr(sorted(vals.items(), key=lambda x: x[0]))).encode()).digest()[:8]
                    if d not in seen:
                        seen.add(d)
                        if len(res['samples']) < 6 and rd == 0 and n <= 1 and len(repr(vals)) < 600: res['samples'].append({'harness': k, 'values': vals})
                elif st == 'fail':
                    if label == 'it comes to an end': t_end = 0
                    res['failures'].append({'harness': k, 'label': label, 'detail': detail, 'values': vals})
                    live.pop(k, None)
                    break
                else:
                    errs += 1
                    if len(res['errors']) < 10: res['errors'].append({'harness': k, 'error': label, 'tb': detail})
                    if errs > 20:
                        live.pop(k, None)
                        break
    res['distinct'] = len(seen)
    res['known'] = sorted(HITS)
    json.dump(res, open(out, 'w'), default=str)


if __name__ == '__main__':
    main()

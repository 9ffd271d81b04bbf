"""run the symbolic mode of the harnesses of one property: python -m vc.worker_sym PROP OUT.json [scale] [only]"""
import sys, os, json, time, importlib, signal, resource, traceback, threading
from .env import VTSITE
sys.path.append(VTSITE)
from . import core, api, instrument
from .core import Explorer, Unsupported

SYMNAMES = ('SReal', 'SInt', 'SStr', 'SBool', 'Lazy', 'SDict', 'SSet', 'SRange', 'BRef', 'Abs')


def innermost(exc):
    tb = exc.__traceback__
    last = None
    while tb is not None:
        last = tb
        tb = tb.tb_next
    return last.tb_frame.f_code.co_filename if last else ''


def engine_artifact(e):
    try: m = f'{type(e).__name__}: {e}'
    except BaseException: return False   # a message with symbolic text is one of the package's
    if type(e) is RuntimeError and innermost(e).startswith(instrument.SRC) and 'object' not in m: return False   # raised by the package
    return any(s in m for s in SYMNAMES)


class SymVC(api.Symbolic):
    def run(self, f, *a, **k):
        try:
            return api.Out(f(*a, **k))
        except Exception as e:
            if getattr(e, 'vc_real', False): return api.Out(exc=e)
            if engine_artifact(e):
                raise Unsupported(f'{type(e).__name__}: {e}')
            if isinstance(e, (TypeError, AttributeError)) and not innermost(e).startswith(instrument.SRC):
                fn = innermost(e)
                if '/verif/vc/' in fn or '/props/' in fn:
                    raise Unsupported(f'{type(e).__name__} in {os.path.basename(fn)}: {e}')
            return api.Out(exc=e)


def run_one(key, scale):
    h = api.HARNESSES[key]
    sys.setrecursionlimit(3000)
    ex = Explorer(h.name, None, budget_s=h.budget * scale, max_paths=h.max_paths)
    ex.unroll = h.unroll
    def wrapped(vc):
        try:
            h.fn(vc)
        except Exception as e:
            if not getattr(e, 'vc_real', False) and (engine_artifact(e) or not innermost(e).startswith(instrument.SRC)):
                raise Unsupported(f'{type(e).__name__}: {e} at {os.path.basename(innermost(e))}: ' + ' | '.join(
                    f'{os.path.basename(f.filename)}:{f.lineno}' for f in traceback.extract_tb(e.__traceback__)[-4:]))
            vc.check(False, f'no unexpected {type(e).__name__}')
    ex.fn = wrapped
    t0 = time.time()
    ex.run(lambda p: SymVC(p))
    v = ex.verdict()
    return {'harness': key, 'verdict': v, 'paths': ex.paths, 'vcs': ex.n_obl, 'obligations': ex.obls, 'notes': ex.notes[:6],
            'cex': ex.cex, 'solver_s': round(ex.solver_s, 3), 'queries': ex.queries, 'wall_s': round(time.time() - t0, 3),
            'bounds': sorted(ex.bounds) + ([h.bounded] if h.bounded else []), 'covered': sorted(ex.covered), 'functions': h.functions,
            'steps': ex.steps}


def main():
    prop, out = sys.argv[1], sys.argv[2]
    scale = float(sys.argv[3]) if len(sys.argv) > 3 else 1.0
    only = sys.argv[4] if len(sys.argv) > 4 else ''
    verbose = os.environ.get('VC_VERBOSE')
    instrument.install()
    results = []
    try:
        import mccode_antlr.instr, mccode_antlr.comp  # noqa
        importlib.import_module(f'props.{prop.lower()}')
    except BaseException as e:
        json.dump([{'harness': f'{prop}:import', 'verdict': 'undecided', 'notes': [f'import: {type(e).__name__}: {e}'], 'vcs': 0,
                    'obligations': {}, 'cex': [], 'paths': 0, 'solver_s': 0, 'queries': 0, 'wall_s': 0, 'bounds': [], 'covered': [], 'functions': []}], open(out, 'w'))
        if verbose: traceback.print_exc()
        return
    keys = [k for k, h in api.HARNESSES.items() if h.prop == prop and h.sym and only in k]
    # one forked child per harness, up to NP at a time
    NP = int(os.environ.get('VC_JOBS', '8'))
    running = {}
    queue = list(keys)
    while queue or running:
        while queue and len(running) < NP:
            k = queue.pop(0)
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                os.close(r)
                try:
                    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
                    threading.stack_size(256 << 20)
                    box = {}
                    def go():
                        try:
                            box['r'] = run_one(k, scale)
                        except BaseException as e:
                            if verbose: traceback.print_exc()
                            box['r'] = {'harness': k, 'verdict': 'undecided', 'notes': [f'engine: {type(e).__name__}: {e}'], 'vcs': 0, 'obligations': {},
                                        'cex': [], 'paths': 0, 'solver_s': 0, 'queries': 0, 'wall_s': 0, 'bounds': [], 'covered': [],
                                        'functions': api.HARNESSES[k].functions}
                    t = threading.Thread(target=go); t.start(); t.join()
                    with os.fdopen(w, 'w') as f: json.dump(box['r'], f, default=str)
                finally:
                    os._exit(0)
            os.close(w)
            running[pid] = (k, r, time.time(), [])
        # collect
        import select
        fds = {v[1]: p for p, v in running.items()}
        ready, _, _ = select.select(list(fds), [], [], 0.5)
        for fd in ready:
            pid = fds[fd]
            b = os.read(fd, 1 << 16)
            if b:
                running[pid][3].append(b)
                continue
            k, r, t0, buf = running.pop(pid)
            os.close(r); os.waitpid(pid, 0)
            try: results.append(json.loads(b''.join(buf)))
            except Exception: results.append(dead(k, 'worker died'))
        for pid in list(running):
            k, r, t0, buf = running[pid]
            if time.time() - t0 > api.HARNESSES[k].budget * scale + 45:
                os.kill(pid, signal.SIGKILL); os.waitpid(pid, 0); os.close(r)
                running.pop(pid)
                results.append(dead(k, 'killed at its time limit'))
    results.sort(key=lambda r: keys.index(r['harness']))
    json.dump(results, open(out, 'w'), indent=1)


def dead(k, why):
    return {'harness': k, 'verdict': 'undecided', 'notes': [why], 'vcs': 0, 'obligations': {}, 'cex': [], 'paths': 0, 'solver_s': 0,
            'queries': 0, 'wall_s': 0, 'bounds': [], 'covered': [], 'functions': api.HARNESSES[k].functions}


if __name__ == '__main__':
    main()

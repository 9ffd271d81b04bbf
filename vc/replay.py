"""run one replay file again on /repo's current tree"""
import sys, json, os
from . import env as E
from .check import launch, load
d = json.load(open(sys.argv[1]))
env, cleanup = E.setup()
try:
    if 'values' not in d:
        print('no failing input; the refuted obligation is', d['harness'], '/', d['obligation']); print(json.dumps(d['counter_models'], indent=1)); sys.exit(1)
    c, o = env['VC_OFF'] + '/c.json', env['VC_OFF'] + '/o.json'
    json.dump([{'harness': d['harness'], 'values': d['values'], 'strict': d.get('strict', False)}], open(c, 'w'))
    rc, txt = launch(['vc.worker_conc', 'replay', d['property'], o, c], env, 300)
    r = load(o, {'failures': [], 'errors': [txt]})
    for f in r['failures']: print('FAILS:', f['harness'], '/', f['label'], '\n', f['detail'], '\n', f['values'])
    if not r['failures']: print('holds', r['errors'][:1] or '')
    sys.exit(1 if r['failures'] else 0)
finally:
    cleanup()

#!/bin/bash
# developer helper: symrun.sh PROP [only] -> symbolic verdicts
. /opt/vp/env.sh; cd /verif; export PYTHONPATH=/verif
timeout ${T:-600} python -m vc.worker_sym $1 /tmp/sym_$1.json ${SCALE:-1} "$2"; python - $1 <<'P'
import json,sys
for r in json.load(open(f'/tmp/sym_{sys.argv[1]}.json')):
    print(r['harness'], r['verdict'], 'paths',r['paths'],'vcs', r['vcs'], r['wall_s'],'z3',r['solver_s'], r['notes'][:2], r['bounds']);
    for c in r['cex'][:2]: print('   ', c['label'], c['model'])
P

#!/bin/bash
# developer helper: concrun.sh PROP [seconds] [only]
. /opt/vp/env.sh; cd /verif; export PYTHONPATH=${VC_REPO_SRC:-/repo/src}:/verif VC_SCRATCH=$OFF/scratch VC_OFF=$OFF HOME=$OFF; mkdir -p $OFF/scratch
python -m vc.worker_conc random $1 /tmp/conc_$1.json ${SEED:-1} ${2:-5} 1000000 0 "$3"; python - $1 <<'P'
import json,sys
r=json.load(open(f'/tmp/conc_{sys.argv[1]}.json'))
print('cases',r['cases'],'checks',r['checks'],'distinct',r['distinct'],'discarded',r['discarded'])
for k,v in r['per'].items(): print('  ',k,v)
for f in r['failures']: print('FAIL',f['harness'],f['label'],f['values'],'\n      ',f['detail'])
for f in r['errors'][:3]: print('ERR',f['harness'],f['error'],f['tb'])
P

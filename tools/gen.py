"""writes properties.jsonl and MANIFEST.json from vc/props_meta.py"""
import sys, os, json
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
from vc.props_meta import META
try: from vc.props_meta import NA
except ImportError: NA = {}
with open(f'{ROOT}/properties.jsonl', 'w') as f:
    for k, m in {**META, **NA}.items():
        assert len(m['title']) <= 80, k
        f.write(json.dumps({'id': k, 'title': m['title'], 'statement': m['statement'], 'quantifier': m['quantifier'], 'why_tests_cant': m['why'], 'anchors': m['anchors']}) + '\n')
man = {'version': 1, 'setup_cmd': 'bash run.sh selftest',
       'checks': [{'property': k, 'quick_cmd': f'bash run.sh check {k} --tier quick', 'thorough_cmd': f'bash run.sh check {k} --tier thorough',
                   'technique': m['technique'], 'level': m['level'], 'level_note': m['note']} for k, m in META.items()],
       'not_applicable': [{'property': k, 'reason': m['reason']} for k, m in NA.items()],
       'notes': 'see DESIGN.md; no hooks in /repo: the source is instrumented in memory on import'}
json.dump(man, open(f'{ROOT}/MANIFEST.json', 'w'), indent=1)

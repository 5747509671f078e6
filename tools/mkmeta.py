"""Writes properties.jsonl and MANIFEST.json from one table (python3 tools/mkmeta.py)."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
from tools.table import PROPS, NA, NOTES, HOOK_COMMITS

with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
    for p in PROPS:
        f.write(json.dumps({k: p[k] for k in ('id', 'title', 'statement', 'quantifier', 'why_tests_cant', 'anchors')}) + '\n')
    for p in NA:
        f.write(json.dumps({k: p[k] for k in ('id', 'title', 'statement', 'quantifier', 'why_tests_cant', 'anchors')}) + '\n')
m = {'version': 1, 'setup_cmd': './check setup',
     'hooks': {'guard': 'none', 'enable': 'no hooks: every seam is installed from /verif by replacing module-level names '
               '(numpy.empty, h5py.File, numpy random state) before the code under test is imported', 'source_commits': HOOK_COMMITS},
     'checks': [], 'not_applicable': [{'property': p['id'], 'reason': p['reason']} for p in NA], 'notes': NOTES}
for p in PROPS:
    m['checks'].append({'property': p['id'], 'quick_cmd': './check %s --tier quick' % p['id'],
                        'thorough_cmd': './check %s --tier thorough' % p['id'],
                        'evidence_file': 'evidence/%s.json' % p['id'], 'technique': p['technique'],
                        'level': 'exploration', 'level_note': p['level_note']})
json.dump(m, open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)

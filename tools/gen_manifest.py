"""writes /verif/MANIFEST.json from checks.py and properties.jsonl"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from checks import CHECKS, TRUST
props = [json.loads(l)['id'] for l in open(f'{V}/properties.jsonl')]
m = {
    'version': 1,
    'setup_cmd': 'python3 tools/setup.py',
    'checks': [{
        'property': p,
        'quick_cmd': f'python3 run.py {p}',
        'thorough_cmd': f'VERIF_TIER=thorough python3 run.py {p}',
        'technique': c['technique'],
        'level': c.get('level', 'model_checking'),
        'level_note': c['level_note'] + ' ' + TRUST.strip(),
    } for p, c in sorted(CHECKS.items())],
    'hooks': {'guard': 'verif (Go build tag)',
              'enable': 'go build -tags verif',
              'source_commits': ['d93d564']},
    'not_applicable': [{'property': p, 'reason': 'the check is not built yet'} for p in props if p not in CHECKS],
    'notes': 'The driver in harness/ uses the exported API of the packages, gates of its own as probes, and the scheduling hook of common/semaphore.go.',
}
json.dump(m, open(f'{V}/MANIFEST.json', 'w'), indent=1)

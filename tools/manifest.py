#!/usr/bin/env python3
"""Writes MANIFEST.json from the analyser's list of checks and the table in tools/claims.json."""
import json, os, subprocess
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
claimed = subprocess.check_output([here + '/.build/gc', '-list'], text=True).split()
claims = json.load(open(here + '/tools/claims.json'))
props = [json.loads(l)['id'] for l in open(here + '/properties.jsonl')]
m = {'version': 1, 'setup_cmd': './setup.sh', 'checks': [], 'not_applicable': [],
     'notes': 'One analyser (checker/, Go, offline) decides every claimed property from the source of /repo; no hooks are needed in /repo.'}
for p in props:
    if p in claimed:
        c = claims['claimed'][p]
        m['checks'].append({'property': p, 'quick_cmd': f'./check.sh {p} quick', 'thorough_cmd': f'./check.sh {p} thorough',
                            'technique': c[0], 'level': 'other', 'level_note': c[1]})
    else:
        m['not_applicable'].append({'property': p, 'reason': claims['na'].get(p, 'the check for this property has not been built yet')})
json.dump(m, open(here + '/MANIFEST.json', 'w'), indent=1)
open(here + '/MANIFEST.json', 'a').write('\n')

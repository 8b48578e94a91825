#!/usr/bin/env python3-vt
"""regenerates MANIFEST.json from checks/*.py and tools/na.json"""
import json, os, glob, importlib, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [V + '/dv', V + '/checks']
na = json.load(open(V + '/tools/na.json'))
checks = []
for f in sorted(glob.glob(V + '/checks/c[0-9][0-9].py')):
    m = importlib.import_module(os.path.basename(f)[:-3])
    i = m.PROP.lower()
    checks.append({'property': m.PROP, 'quick_cmd': 'python3-vt run.py ' + i, 'thorough_cmd': 'VERIF_TIER=thorough python3-vt run.py ' + i + ' --thorough',
                   'evidence_file': 'evidence/%s.json' % m.PROP, 'technique': m.TECHNIQUE, 'level': m.LEVEL,
                   'level_note': m.NOTE + ' Assumes: ' + '; '.join(m.ASSUMPTIONS) + '. Trusts: ' + ', '.join(m.TRUSTED) + '.'})
done = {c['property'] for c in checks}
ids = [json.loads(l)['id'] for l in open(V + '/properties.jsonl')]
out = {'version': 1, 'setup_cmd': 'python3-vt -c "import z3, cvc5" && mkdir -p evidence',
       'checks': checks, 'not_applicable': [{'property': i, 'reason': na[i]} for i in ids if i not in done],
       'notes': 'no hooks: /repo is analysed and linked as it is. Every check compiles what it needs from /repo into a scratch directory it removes.'}
json.dump(out, open(V + '/MANIFEST.json', 'w'), indent=1); print(len(checks), 'checks', len(out['not_applicable']), 'n/a')

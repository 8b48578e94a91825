"""rewrites the tables at the end of DESIGN.md from KNOWN_FINDINGS.jsonl, tools/na.json and tools/caught.json"""
import json, os, re
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
d = open(H + '/DESIGN.md').read().split('## 4. Not applicable')[0]
m = json.load(open(H + '/MANIFEST.json')); fx, kf = [], []
for l in open(H + '/KNOWN_FINDINGS.jsonl'):
    l = l.strip()
    if l.startswith('fixed:'): fx.append(l[6:].strip())
    elif l.startswith('{'): kf.append(json.loads(l))
out = ['## 4. Not applicable or not covered', '']
out += ['* **%s** %s' % (x.get('property') or x.get('id'), x['reason']) for x in m['not_applicable']]
out += ['', '## 5. Known findings (genuine defects recorded, not repaired)', '']
out += ['* **%s** `%s`: %s' % (x.get('property'), x.get('key') or x.get('id'), x.get('what') or x.get('detail') or x.get('description')) for x in kf]
out += ['', '## 6. Defects found and repaired in /repo', '', 'Each is a separate `fix:` commit; the check that found it passes on the repaired tree and reports it again if it returns.', '']
out += ['* ' + x for x in fx]
out += ['', '## 7. Planted bugs and what catches them', '', 'All are caught by the quick command of the check named; "concrete" means a failing input on the real code is printed, "obligation" that the failed obligation is the report.', '', '| seed | needs | result |', '|---|---|---|']
ca = json.load(open(H + '/tools/caught.json'))
for s in sorted(os.listdir(H + '/seeded')):
    j = json.load(open('%s/seeded/%s/meta.json' % (H, s))); out.append('| %s | %s | %s |' % (s, j['needs'], ca.get(s, 'not measured')))
open(H + '/DESIGN.md', 'w').write(d + '\n'.join(out) + '\n')

"""Writes DESIGN.md: prose below + per-property table from properties.jsonl,
the register() texts in tool/, claims.py and gen/seed_results.json."""
import json, os, re, sys
sys.path.insert(0, os.path.dirname(__file__))
from claims import CLAIMS, NA
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
reg = {}
for f in sorted(os.listdir(R + '/tool')):
    if f.startswith('rules_') and f.endswith('.go'):
        for m in re.finditer(r'register\("(\w+)", "((?:[^"\\]|\\.)*)"', open(R + '/tool/' + f).read()):
            reg[m.group(1)] = m.group(2)
props = [json.loads(l) for l in open(R + '/properties.jsonl')]
res = json.load(open(R + '/gen/seed_results.json'))
prose = open(R + '/gen/design_prose.md').read()
out = []
for p in props:
    i = p['id']
    out.append('### %s %s\n' % (i, p['title']))
    if i in NA:
        out.append('Not applicable: %s\n' % NA[i])
        continue
    out.append('*Rule.* %s\n' % (reg.get(i, '').strip().capitalize() + '.' if reg.get(i) else ''))
    tech, scope = CLAIMS[i]
    out.append('*Technique.* %s.\n' % tech)
    out.append('*Reach.* %s\n' % scope.split(' Arithmetic is exact real')[0].strip())
    s = sorted(k for k, v in res.items() if v['prop'] == i)
    if s:
        out.append('*Planted bugs.* ' + '; '.join('`%s`: %s' % (k, res[k]['result']) for k in s) + '.\n')
table = '\n'.join(out)
open(R + '/DESIGN.md', 'w').write(prose.replace('@@PROPERTIES@@', table))

"""MANIFEST.json from properties.jsonl and the claims below."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
from claims import CLAIMS, NA
props = [json.loads(l)['id'] for l in open(ROOT + '/properties.jsonl')]
checks, na = [], []
for i in props:
    if i in CLAIMS:
        tech, note = CLAIMS[i]
        checks.append(dict(property=i, quick_cmd='bash check.sh ' + i, thorough_cmd='bash check.sh ' + i,
                           technique=tech, level='other', level_note=note))
    else:
        na.append(dict(property=i, reason=NA.get(i, 'check not built yet')))
json.dump(dict(version=1, setup_cmd='bash setup.sh', checks=checks, not_applicable=na,
  notes='One static analyser (tool/, Go, x/tools/go/ssa) decides every claimed property from the current source of /repo; no hooks are needed in /repo.'),
  open(ROOT + '/MANIFEST.json', 'w'), indent=1, ensure_ascii=False)

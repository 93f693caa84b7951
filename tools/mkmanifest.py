#!/usr/bin/env python3
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H + '/mc'); import configs
props = [json.loads(l) for l in open(H + '/properties.jsonl')]
NA = json.load(open(H + '/tools/na.json')) if os.path.exists(H + '/tools/na.json') else {}
checks, na = [], []
for p in props:
    i = p['id']
    if i in configs.PROPS:
        q = configs.PROPS[i]
        checks.append(dict(property=i, quick_cmd='python3 check.py %s quick' % i, thorough_cmd='python3 check.py %s thorough' % i,
            technique=q.get('technique') or 'explicit-state model checking of the real code (exhaustive BFS over operation histories, canonical memory-image states, reference-model oracle)',
            level='model_checking', level_note=q.get('level_note') or configs.LEVEL_NOTE))
    else:
        na.append(dict(property=i, reason=NA.get(i, 'check not built yet')))
m = dict(version=1, setup_cmd='true', checks=checks, not_applicable=na)
json.dump(m, open(H + '/MANIFEST.json', 'w'), indent=1); open(H + '/MANIFEST.json', 'a').write('\n')
print(len(checks), 'claimed', len(na), 'not claimed')

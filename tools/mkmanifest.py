#!/usr/bin/python3
import json, sys, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [V + '/lib', V + '/checks']
sys.dont_write_bytecode = True
import registry
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
checks, na = [], []
for p in props:
    i = registry.INFO.get(p['id'])
    if i is None:
        na.append({'property': p['id'], 'reason': registry.NA.get(p['id'], 'check under construction')}); continue
    checks.append({'property': p['id'], 'quick_cmd': 'python3 run.py %s --tier quick' % p['id'], 'thorough_cmd': 'python3 run.py %s --tier thorough' % p['id'],
                   'technique': i[1], 'level': i[0], 'level_note': i[2]})
m = {'version': 1, 'setup_cmd': 'python3 lib/build.py plain asan tsan', 'checks': checks, 'not_applicable': na}
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
open(V + '/MANIFEST.json', 'a').write('\n')
print(len(checks), 'checks', len(na), 'not claimed')

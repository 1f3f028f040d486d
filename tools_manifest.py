"""regenerates MANIFEST.json from ana/modules.py"""
import json, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'ana'))
import modules
props = [json.loads(l) for l in open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'properties.jsonl'))]
NA = modules.NOT_APPLICABLE
checks = []
for p in props:
    i = p['id']
    if i in NA:
        continue
    if i not in modules.PROPS:
        NA[i] = 'not decided yet'
        continue
    s = modules.PROPS[i]
    checks.append({'property': i, 'quick_cmd': 'python3 ana/check.py ' + i, 'thorough_cmd': 'python3 ana/check.py ' + i,
                   'evidence_file': 'evidence/%s.json' % i, 'technique': s.get('technique') or modules.TECH, 'level': 'other',
                   'level_note': s.get('note') or modules.NOTE})
m = {'version': 1, 'setup_cmd': './setup.sh', 'checks': checks,
     'not_applicable': [{'property': k, 'reason': v} for k, v in sorted(NA.items())],
     'notes': 'Checks read the compiler\'s MIR of /repo\'s current tree through driver/main.rs; none runs the library. Repeated runs on the same source and the same analyser reuse build/cache, keyed by the content of both.'}
open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'MANIFEST.json'), 'w').write(json.dumps(m, indent=1) + '\n')

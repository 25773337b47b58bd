#!/usr/bin/env python3
"""Writes MANIFEST.json from the property list and the workload modules present."""
import json, os, ast
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
NA = {
    'P30': 'pure single-threaded numerics: the answer is a function of in-memory inputs with no concurrency, time, I/O, randomness or second party, so no schedule or fault can change it',
    'P31': 'pure compiled numerics on in-memory arrays (one C call, no threads, I/O, time or randomness): nothing for a simulator to schedule or fail',
    'P32': 'statistical fit quality of single-threaded optimisers over in-memory samples: no schedule, fault or history dependence (the crash and resume behaviour of calibration is P14)',
}
TECH = 'deterministic simulation with fault injection: seeded search over schedules, crash points and I/O faults of the real code run as simulated processes'
NOTES = {}
checks, na = [], []
for p in props:
    i = p['id']
    fn = os.path.join(V, 'sim', 'props', i.lower() + '.py')
    if os.path.exists(fn):
        note = ''
        tree = ast.parse(open(fn).read())
        for n in tree.body:
            if isinstance(n, ast.Assign) and getattr(n.targets[0], 'id', '') == 'LEVEL_NOTE':
                note = ast.literal_eval(n.value)
        assert note, i
        checks.append(dict(property=i, quick_cmd='bash run.sh %s quick' % i, thorough_cmd='bash run.sh %s thorough' % i,
                           technique=TECH, level='exploration', level_note=note))
    else:
        na.append(dict(property=i, reason=NA.get(i, 'workload not built yet')))
m = dict(version=1, setup_cmd='true', hooks=dict(guard='', enable='', source_commits=[]), checks=checks, not_applicable=na)
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'n/a')

#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the table below (run by hand, the result is committed)."""
import json, os, subprocess
R = os.path.dirname(os.path.abspath(__file__))
T = 'deterministic simulation with fault injection'
NA = {
 'C26': 'Rotation and pose conversions are pure functions of their arguments: no history, schedule, clock, I/O, allocation or fault can change their result, so simulation has nothing to decide here that plain input generation would not; what histories of motions make of them is claimed and checked as C28, and the states they produce inside running sessions under C08, C06 and C23.',
 'C27': 'SE3Cov compounding is a pure function of two fixed-size values (no heap, no shared state, no I/O, no ordering), so as an all-inputs claim there is no nondeterminism or fault for a simulator to drive; compounding along simulated histories of motions is checked under C28.',
}
NOTE = {}
exec(open(os.path.join(R, 'tools_notes.py')).read())
props = [json.loads(l) for l in open(os.path.join(R, 'properties.jsonl'))]
have = subprocess.check_output([os.path.join(R, 'build/sim'), 'list']).decode().split() + (['C24'] if os.path.exists(os.path.join(R, 'sim/py/drive.py')) else [])
m = {'version': 1, 'setup_cmd': 'python3 build.py sim py' if 'C24' in have else 'python3 build.py sim',
     'hooks': {'guard': 'none', 'enable': 'No hooks are added to /repo: the seams are the symbols the library already calls (allocator, clocks, stream buffer, mutexes), replaced at link time, and compiler-inserted -fsanitize-coverage=trace-pc call-outs.', 'source_commits': []},
     'checks': [], 'not_applicable': []}
for p in props:
    i = p['id']
    if i in have:
        m['checks'].append({'property': i, 'quick_cmd': './check.sh %s quick' % i, 'thorough_cmd': './check.sh %s thorough' % i, 'evidence_file': 'evidence/%s.json' % i,
            'technique': T + NOTE.get(i, ('',''))[0], 'level': 'exploration', 'level_note': NOTE.get(i, ('', 'Seeded search over simulated histories: no guarantee outside the runs explored.'))[1]})
    else: m['not_applicable'].append({'property': i, 'reason': NA.get(i, 'No check yet.')})
json.dump(m, open(os.path.join(R, 'MANIFEST.json'), 'w'), indent=1)

#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and specs.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + '/tools')
from specs import SPECS
NA = {
 'N01': 'Pure functions of their arguments: no thread, clock, I/O, allocation failure or randomness for a simulator to control; a seeded run would only be input fuzzing.',
 'N02': 'Pure single-threaded string functions on caller memory: no nondeterminism besides the input, so nothing for a simulated scheduler or fault injector to decide.',
 'N03': 'Pure parsing and formatting functions: no nondeterminism besides the input.',
 'N04': 'Pure arithmetic compared with reference vectors: no schedule, fault or environment takes part.',
 'N06': 'The timer wheel is a header declaring an interface only; the repository has no implementation to execute.',
 'N07': 'Text parsers over a command line or a file already read: no nondeterminism besides the input text.',
}
NOTE = ('Seeded search over schedules, histories and injected faults of the real code under a deterministic simulator: '
        'finds violations within the runs explored, no proof of absence. Trusts the simulated environment (see DESIGN.md) and the compiler.')
checks, na = [], []
for l in open(V + '/properties.jsonl'):
    p = json.loads(l)['id']
    s = SPECS.get(p)
    if s and all(os.path.exists(V + '/harness/' + h) for h in s['harness']):
        checks.append(dict(property=p, quick_cmd='bin/check ' + p, thorough_cmd='VERIF_TIER=thorough bin/check ' + p,
            evidence_file='evidence/%s.json' % p,
            technique='deterministic simulation with fault injection (seeded schedule/fault search, recorded-history oracle, minimised replay)',
            level='exploration', level_note=s.get('note', NOTE)))
    else:
        na.append(dict(property=p, reason=NA.get(p, 'no check built yet')))
m = dict(version=1, setup_cmd='python3 tools/setup.py', hooks=dict(guard='none', enable='no hooks: library symbols are redirected on the compiled objects (objcopy --redefine-syms) in /verif/build', source_commits=[]), checks=checks, not_applicable=na,
         notes='bin/check --replay FILE re-executes a replay file. fix: commits in /repo are listed in known-findings.txt.')
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)

#!/usr/bin/env python3
"""Writes MANIFEST.json from the suites that exist."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
MC = {'C01', 'C03', 'C04', 'C16', 'C19', 'C27'}
FAULT = {'C02', 'C25'}
NOTE = {
 'model_checking': 'Stateless model checking of the real code: every thread schedule up to the stated preemption bound, over all enumerated configurations; both an AddressSanitizer build and a race-detecting build in which racing accesses become scheduling points. Trusts the engine\'s replacement of threads, network, clock and TLS record layer; sequentially consistent memory.',
 'fault_enumeration': 'Every listed call is made to fail at every occurrence in every enumerated history of the real server, under AddressSanitizer; trusts the engine\'s replacement of threads, network, clock and TLS record layer.',
 'exploration': 'Exhaustive enumeration of inputs, histories and segmentations within the stated bounds, executed on the real code under AddressSanitizer in a controlled environment and judged by an independent oracle; says nothing beyond the bounds.'}
TECH = {
 'model_checking': 'stateless model checking of the implementation: exhaustive schedule exploration under a controlled scheduler with a preemption bound, plus happens-before race detection',
 'fault_enumeration': 'exhaustive fault-point enumeration on the implementation under a controlled environment',
 'exploration': 'bounded exhaustive exploration of operation sequences, inputs and environment choices on the implementation under a controlled environment'}
checks, na = [], []
for p in props:
    i = p['id']
    if os.path.exists(f'{V}/mc/suites/{i.lower()}.cpp'):
        lv = 'model_checking' if i in MC else 'fault_enumeration' if i in FAULT else 'exploration'
        checks.append(dict(property=i, quick_cmd=f'python3 check.py {i}', thorough_cmd=f'python3 check.py {i} --tier thorough', evidence_file=f'evidence/{i}.json', technique=TECH[lv], level=lv, level_note=NOTE[lv]))
    else:
        na.append(dict(property=i, reason='check not built yet'))
json.dump(dict(version=1, setup_cmd='mkdir -p build evidence && python3 -m py_compile check.py', hooks=dict(guard='none', enable='no hooks: checks compile the unmodified sources and redirect library calls at link time', source_commits=[]), checks=checks, not_applicable=na,
     notes='See DESIGN.md. Every check compiles /repo/*.c from the working tree; nothing is taken from earlier builds of /repo.'), open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks,', len(na), 'not applicable')

#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the properties and the checks that exist."""
import json, re, glob, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(here + '/properties.jsonl')]
checks = {}
for f in sorted(glob.glob(here + '/checker/c_*.go')):
    for m in re.finditer(r'checks\["(C\d+)"\] = check\{\s*"((?:[^"\\]|\\.)*)"', open(f).read()):
        checks[m.group(1)] = m.group(2).replace('\\"', '"')
na = {
 'C36': 'The error of a statistic is a numeric quantity of the third party HDR histogram for arbitrary sequences of recordings; no static argument in reach bounds floating point error through its buckets.',
 'C37': 'Whether two of the names that are registered hash to the same reduced identifier depends on the names at run time; the code does not prevent it and no static argument can (C27 decides the computation of identifiers).',
 'C38': 'Values are written into shared memory byte by byte; whether another process can see a torn value depends on the memory model of the hardware and the compiled code, which are out of reach of an analysis of the source.',
 'C39': 'An end to end round trip of two programs over arbitrary files is a composition of run time contents; its static parts are decided as C02, C03, C17, C31 and C33.',
 'C40': 'Depends on the clock of the system at run time.',
}
out = {'version': 1, 'setup_cmd': './check.sh build', 'checks': [], 'not_applicable': []}
for p in props:
    i = p['id']
    if i in checks:
        out['checks'].append({
          'property': i, 'quick_cmd': f'./check.sh {i} quick', 'thorough_cmd': f'./check.sh {i} thorough',
          'technique': 'static analysis of the type-checked program and its SSA form with repository specific rules: ' + checks[i],
          'level': 'other', 'level_note': 'Every obligation is decided from the current source for all values of its symbols; what cannot be decided is reported as a violation. The assumptions are listed in the evidence and in DESIGN.md.'})
    else:
        out['not_applicable'].append({'property': i, 'reason': na.get(i, 'The check of this property is not finished.')})
json.dump(out, open(here + '/MANIFEST.json', 'w'), indent=1)
open(here + '/MANIFEST.json', 'a').write('\n')
print(len(out['checks']), 'checks')

#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the table below and properties.jsonl."""
import json, os, re
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(here, 'properties.jsonl'))]
src = open(os.path.join(here, 'checker', 'report.go')).read()
claimed = set(re.findall(r'"(C\d\d)":\s*rule', src))
tech = {}
note = {}
for l in open(os.path.join(here, 'tools', 'techniques.txt')):
    l = l.rstrip('\n')
    if not l.strip() or l.startswith('#'):
        continue
    i, t, n = [x.strip() for x in l.split('|')]
    tech[i], note[i] = t, n
na = {}
for l in open(os.path.join(here, 'tools', 'not_applicable.txt')):
    if '|' in l:
        i, n = [x.strip() for x in l.split('|')]
        na[i] = n
TRUST = ('Sound for the paths of the Go source as type-checked, given the models of the library functions in checker/models.go '
         'and of the cryptographic primitives as uninterpreted functions; what the analysis cannot decide it reports as a violation.')
m = {'version': 1,
     'setup_cmd': './check.sh --build',
     'checks': [], 'not_applicable': []}
for p in props:
    i = p['id']
    if i in claimed:
        m['checks'].append({'property': i, 'quick_cmd': './check.sh %s' % i,
                            'thorough_cmd': './check.sh %s --tier=thorough' % i,
                            'technique': tech[i], 'level': 'other',
                            'level_note': (note[i] + ' ' + TRUST).strip()})
    else:
        m['not_applicable'].append({'property': i, 'reason': na.get(i, 'the check for it is not finished')})
json.dump(m, open(os.path.join(here, 'MANIFEST.json'), 'w'), indent=1)
print('claimed', len(m['checks']), 'not applicable', [x['property'] for x in m['not_applicable']])

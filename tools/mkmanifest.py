#!/usr/bin/env python3
"""Regenerates MANIFEST.json from properties.jsonl and the harness files."""
import glob, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {}
p = os.path.join(V, 'not_applicable.json')
if os.path.exists(p):
    NA = json.load(open(p))
checks, na = [], []
for l in open(os.path.join(V, 'properties.jsonl')):
    pr = json.loads(l)['id']
    if glob.glob(os.path.join(V, 'harness', pr + '*.cpp')) and pr not in NA:
        bounds = []
        for h in sorted(glob.glob(os.path.join(V, 'harness', pr + '*.cpp'))):
            for x in open(h):
                if x.startswith('// ENTRY') and 'bound="' in x and 'tier=thorough' not in x:
                    bounds.append(x.split('bound="')[1].split('"')[0])
        checks.append({'property': pr, 'quick_cmd': 'python3 tools/check.py %s --tier quick' % pr,
                       'thorough_cmd': 'python3 tools/check.py %s --tier thorough' % pr,
                       'evidence_file': 'evidence/%s.json' % pr,
                       'technique': 'symbolic execution of the LLVM IR of the real code, SMT (Z3) verdict on every assertion, counterexamples replayed natively',
                       'level': 'model_checking',
                       'level_note': 'Bounded: holds for all values within ' + '; '.join(bounds)[:1500]})
    else:
        na.append({'property': pr, 'reason': NA.get(pr, 'No sound check has been built for this property yet.')})
m = {'version': 1, 'setup_cmd': 'make -s -j8 -C engine', 'checks': checks, 'not_applicable': na,
     'notes': 'Symbolic executor in engine/, harnesses in harness/, driver tools/check.py; see DESIGN.md.'}
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')

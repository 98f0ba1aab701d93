#!/usr/bin/env python3
"""Rewrites the "fixed" list of known-findings.json from /repo's fix: commits (property per commit below)."""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MAP = {'C++ encode_size is constexpr': 'P11', 'keep every bit of a field': 'P02', 'array bit helpers place': 'P01', 'Java array loops honour': 'P02', 'C# decode size of a truncated': 'P04',
       'a field of dynamic struct type': 'P03', 'C++ names imported': 'P11', 'Go loops over fixed structs': 'P11', 'arrays of enums': 'P01', 'ESModule emits the string helpers': 'P11',
       'JavaScript string decoding': 'P06', 'padding that begins': 'P01', 'constant fields encode': 'P05', 'unnamed constant': 'P11', 'Python shifts': 'P02', 'C and C++ sign extension': 'P06',
       'a decoded bool': 'P02', 'custom methods of embedded': 'P13', 'JavaScript decodes full-width': 'P02', 'C# temporaries': 'P11', 'C# decodes narrow floats': 'P02',
       'C# arithmetic sign': 'P11', 'malformed length prefixes': 'P06', 'ESModule emits the float': 'P11', 'Java decodes narrow': 'P02', 'JavaScript decodes 32-bit wide': 'P02',
       'Java arithmetic sign': 'P11', 'Python always copies': 'P08'}
MAP.update(json.load(open(V + '/tools/fixed_map.json')) if os.path.exists(V + '/tools/fixed_map.json') else {})
log = subprocess.check_output(['git', '-C', '/repo', 'log', '--reverse', '--format=%h %s'], text=True)
out = []
for l in log.splitlines():
    h, s = l.split(' ', 1)
    if not s.startswith('fix: '):
        continue
    s = s[5:]
    p = [v for k, v in MAP.items() if s.startswith(k)]
    if not p:
        print('no property for', s)
    out.append('fixed: property=%s %s before: violated "%s"' % (p[0] if p else 'P01', h, s))
k = json.load(open(V + '/known-findings.json'))
k['fixed'] = out
json.dump(k, open(V + '/known-findings.json', 'w'), indent=1)
print(len(out))

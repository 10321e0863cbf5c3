#!/usr/bin/env python3
"""Writes MANIFEST.json and the table of DESIGN.md from lib/plan.py."""
import json, os, re, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, 'lib'))
import plan
checks = []
for p, d in plan.PLAN.items():
    checks.append({
        'property': p,
        'quick_cmd': f'python3 check.py {p} quick',
        'thorough_cmd': f'python3 check.py {p} thorough',
        'evidence_file': f'evidence/{p}.json',
        'technique': "bounded symbolic model checking of the compiled Rust (Kani: MIR -> CBMC -> SAT), counterexamples replayed natively",
        'level': 'other',
        'level_note': (d['explain'] + ' The solver decides every assertion for all values within the bounds: ' + d['bounds'].strip()
                       + ' Assumes: ' + '; '.join(plan.ASSUME + d['assume']) + '. Harnesses the solver could not finish are listed as undecided in the evidence.'),
    })
json.dump({'version': 1, 'setup_cmd': 'true', 'checks': checks, 'not_applicable': [],
           'notes': 'No hooks: everything is reached through the public API; /repo carries two fix: commits (known_findings.json).'},
          open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)

title = {}
for l in open(os.path.join(HERE, 'properties.jsonl')):
    q = json.loads(l)
    title[q['id']] = q['title']
rows = ['| id | decided by | against | bounds |', '|----|-----------|--------|--------|']
for p, d in plan.PLAN.items():
    mods = sorted(set(re.findall(r'h_[a-z]+(?:_arr)?', ' '.join(r for r, _ in d['sel']))))
    rows.append(f"| {p} {title[p]} | {', '.join('`' + m + '`' for m in mods)} | {d['explain']} | {d['bounds'].strip()} |")
f = os.path.join(HERE, 'DESIGN.md')
s = open(f).read()
a, b = s.index('-->', s.index('<!-- table')) + 4, s.index('<!-- end of table')
open(f, 'w').write(s[:a] + '\n'.join(rows) + '\n' + s[b:])

#!/usr/bin/env python3
"""Writes DESIGN.md from tools/design_head.md, mc/checks.py, properties.jsonl, known_findings.txt and
tools/design_extra.py (oracles, costs, notes, results of planted bugs)."""
import json, os, sys
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [R + '/mc', R + '/tools']
import checks, design_extra as X
props = [json.loads(l) for l in open(R + '/properties.jsonl')]
o = [open(R + '/tools/design_head.md').read()]
for p in props:
    k = p['id']
    o.append(f"### {k} {p['title']}\n\n")
    v = checks.CHECKS.get(k)
    if not v:
        o.append(f"*Not claimed*: {X.NOT.get(k, 'check not built yet')}\n\n")
        continue
    o.append("*Harness*: " + ", ".join('`harness/%s`' % q['harness'] for q in v['parts']) + "\n\n")
    o.append(f"*Enumerated*: {v['rule']}.\n\n")
    if k in X.ORACLE:
        o.append(f"*Oracle*: {X.ORACLE[k][0]}.  *Cost of the quick tier*: {X.ORACLE[k][1]}.\n\n")
    if v['assumptions']:
        o.append("*Assumptions / outside the claim*: " + "; ".join(v['assumptions']) + ".\n\n")
o.append("## 3. Limits\n\n" + X.LIMITS + "\n\n## 4. Defects found in the original tree\n\n"
         "Each was shown against the real code by the named property's check before it was repaired "
         "(`fix:` commit in `/repo`) or recorded.\n\n")
for l in open(R + '/known_findings.txt'):
    l = l.strip()
    if l.startswith('fixed:'):
        w = l.split()
        o.append(f"* {w[1].split('=')[1]} fixed in {w[2]}: {' '.join(w[3:])}\n")
o.append("\nKnown findings (recorded, not repaired; printed as KNOWN-FINDING by the check):\n\n")
for l in open(R + '/known_findings.txt'):
    l = l.strip()
    if l.startswith('finding:'):
        w, t = l.split('::', 1)
        o.append(f"* {w.split()[1].split('=')[1]} ({' '.join(w.split()[2:])}): {t.strip()}\n")
o.append("\n" + X.FALSE + "\n\n## 5. Planted bugs\n\nIn `seeded/<id>/`; none is ever committed in `/repo`.  "
         "Columns: planted bug, property, what it needs to show, result of the quick check.\n\n| bug | property | needs | caught |\n|---|---|---|---|\n")
sd = R + '/seeded'
for d in sorted(os.listdir(sd)) if os.path.isdir(sd) else []:
    m = json.load(open(f'{sd}/{d}/meta.json'))
    o.append(f"| {d} | {m['property']} | {str(m['needs']).replace('|', '/')} | {X.CAUGHT.get(d, 'yes')} |\n")
open(R + '/DESIGN.md', 'w').write(''.join(o))

#!/usr/bin/env python3
"""Rewrites the generated tables of DESIGN.md (fixes, planted bugs)."""
import json, os, re
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
fx = [l.strip()[7:] for l in open(R + '/known_findings.txt') if l.startswith('fixed: ')]
fixes = '\n'.join('* %s' % re.sub(r'property=(\S+) (\S+) ', r'\1, commit \2: ', f) for f in fx)
also = json.load(open(R + '/tools/seed_notes.json')) if os.path.exists(R + '/tools/seed_notes.json') else {}
rows = ['| planted bug | check that catches it | needs | |', '|---|---|---|---|']
for d in sorted(os.listdir(R + '/seeded')):
    m = json.load(open('%s/seeded/%s/meta.json' % (R, d)))
    rows.append('| %s | %s | %s | %s |' % (d, m['property'] if also.get(d) != 'missed' else 'not caught by ' + m['property'], m['needs'].replace('|', '/'), {'late': 'missed at first, check strengthened'}.get(also.get(d), '')))
s = open(R + '/DESIGN.md').read()
for tag, body in (('fixes', fixes), ('seeds', '\n'.join(rows))):
    s = re.sub(r'<!-- %s -->.*?<!-- /%s -->' % (tag, tag), lambda _: '<!-- %s -->\n%s\n<!-- /%s -->' % (tag, body, tag), s, flags=re.S)
open(R + '/DESIGN.md', 'w').write(s)

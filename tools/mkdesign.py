#!/usr/bin/env python3
"""Fills DESIGN.md's tables: tools/design.txt holds the prose with @@ markers."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
t = open(V + '/tools/design.txt').read()
props = open(V + '/tools/design_props.txt').read().strip()
fixed = ''.join('* %s (%s): %s\n' % m for m in re.findall(r'^fixed: property=(\S+) (\S+) (.*)$', open(V + '/known-findings.txt').read(), re.M))
kn = ''.join('* %s: %s\n' % m for m in re.findall(r'^known: property=(\S+) .* what=(.*)$', open(V + '/known-findings.txt').read(), re.M))
if kn: fixed += '\nRecorded, not repaired (KNOWN-FINDING lines):\n\n' + kn
caught = dict(re.findall(r'^(\S+)\s+(.*)$', open(V + '/tools/caught.txt').read(), re.M))
rows = '| change | property | needs | caught by |\n|---|---|---|---|\n'
for d in sorted(os.listdir(V + '/seeded')):
    m = json.load(open(V + '/seeded/%s/meta.json' % d))
    rows += '| %s | %s | %s | %s |\n' % (d, m['property'], m['needs'].replace('|', '/').replace('\n', ' '), caught.get(d, '?'))
open(V + '/DESIGN.md', 'w').write(t.replace('@@PROPS@@', props).replace('@@FIXED@@', fixed.strip()).replace('@@SEEDED@@', rows.strip()))

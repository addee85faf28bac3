#!/usr/bin/env python3
"""Fills the tables of DESIGN.md (between the markers) from props_data.py, known-findings.txt and seeded/."""
import os, re, json, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=None, state=None, level_note=None, technique=None, claim=True, reason=None): P.append((id, title, text, why, level_note, design.get(id, '')))
design = {}
exec(open(V + '/tools/design_data.py').read())
exec(open(V + '/tools/props_data.py').read())
regs = {}
for f in sorted(glob.glob(V + '/harness/*.cc')):
    for m in re.finditer(r'pbt::Reg \w+\(\{"(\w+)", "([^"]+)", "([^"]+)", (\d+), (\d+)', open(f).read()):
        regs.setdefault(m[1], []).append((os.path.basename(f), m[2], m[3], m[4], m[5]))
out = []
for id, title, text, why, note, d in P:
    out.append('### %s %s\n\n%s\n' % (id, title, d.strip()))
    out.append('Why tests cannot: ' + why + ' Quantified over ' + text + '.\n')
    for f, n, rule, q, t in regs.get(id, []): out.append('* `%s` sub-check `%s`: %s cases quick, %s thorough (bounded by time); non-trivial: %s.' % (f, n, int(q) // 2, t, rule))
    out.append('')
kf = open(V + '/known-findings.txt').read().splitlines()
fi = ['| property | commit | what failed |', '|---|---|---|']
for l in kf:
    m = re.match(r'fixed: property=(\w+) (\w+) (.*)', l)
    if m: fi.append('| %s | %s | %s |' % m.groups())
fi += ['', 'Recorded, not repaired:', '']
for l in kf:
    m = re.match(r'finding: property=(\w+) key=(\S+) (.*)', l)
    if m: fi.append('* %s `%s`: %s' % (m[1], m[2], m[3]))
se = ['| bug | property | needs | what it breaks | caught by |', '|---|---|---|---|---|']
for d in sorted(glob.glob(V + '/seeded/*/meta.json')):
    m = json.load(open(d)); n = d.split('/')[-2]
    se.append('| %s | %s | %s | %s | %s |' % (n, m['property'], m['needs'], m['what_it_breaks'], missed.get(n, m['property'] + ' quick')))
s = open(V + '/DESIGN.md').read()
def put(tag, lines):
    global s
    body = '<!-- %s -->\n%s\n<!-- end %s -->' % (tag, '\n'.join(lines), tag)
    if '@%s@' % tag in s: s = s.replace('@%s@' % tag, body)
    else: s = re.sub(r'<!-- %s -->.*<!-- end %s -->' % (tag, tag), lambda m: body, s, flags=re.S)
put('PROPS', out); put('FINDINGS', fi); put('SEEDS', se)
open(V + '/DESIGN.md', 'w').write(s)

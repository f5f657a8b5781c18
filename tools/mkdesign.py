#!/usr/bin/env python3
"""fill the generated lists of DESIGN.md (between markers) from known_findings.json and seeded/"""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
s = open(V + '/DESIGN.md').read()
kf = json.load(open(V + '/known_findings.json'))
fx = []
for x in kf['fixed']:
    m = re.match(r'fixed: property=(\S+) (\S+) (.*)', x, re.S)
    fx.append('* %s `%s` %s' % m.groups())
fx.sort()
sd = ['| change | breaks | needs | caught by |', '|---|---|---|---|']
for d in sorted(os.listdir(V + '/seeded')):
    p = V + '/seeded/' + d + '/meta.json'
    if os.path.exists(p):
        m = json.load(open(p))
        sd.append('| %s | %s | %s | %s |' % (d, m['what_it_breaks'].replace('|', '/'), m['needs'].replace('|', '/'), m.get('caught_by', m['property'])))
for k, l in (('FIXES', fx), ('SEEDS', sd)):
    t = '<!-- %s -->\n%s\n<!-- /%s -->' % (k, '\n'.join(l), k)
    if '@@%s@@' % k in s:
        s = s.replace('@@%s@@' % k, t)
    else:
        s = re.sub(r'<!-- %s -->.*<!-- /%s -->' % (k, k), lambda _: t, s, flags=re.S)
open(V + '/DESIGN.md', 'w').write(s)

#!/usr/bin/env python3
"""Writes DESIGN.md from tools/design.d, tools/props.d, known-findings.txt and seeded/."""
import glob, json, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rd = lambda f: open(root + '/' + f).read() if os.path.exists(root + '/' + f) else ''
out = [rd('tools/design.d/00-head.md')]
for f in sorted(glob.glob(root + '/tools/props.d/*.json')):
    p = json.load(open(f)); i = p['id']
    out.append('### %s %s\n' % (i, p['title']))
    out.append(p['statement'] + '\n')
    if 'check' in p:
        c = p['check']
        out.append('* **Decided by**: %s (`%s`).' % (c['technique'], c['cmd']))
        out.append('* **Enumerated**: %s.' % p['quantifier']['text'])
        out.append('* **Coverage and limits**: %s' % c['note'])
    else:
        out.append('* **Not claimed**: %s' % p.get('not_applicable', 'check not built yet'))
    out.append('* **Beyond tests**: %s' % p['why_tests_cant'])
    extra = rd('tools/design.d/%s.md' % i).strip()
    if extra: out.append(extra)
    out.append('')
out.append(rd('tools/design.d/90-tail.md'))
fixed, known = [], []
for l in rd('known-findings.txt').splitlines():
    m = re.match(r'(fixed|finding): property=(\S+) (\S+) (.*)', l)
    if m: (fixed if m[1] == 'fixed' else known).append(m.groups()[1:])
out.append('## Genuine defects repaired in /repo\n\n| property | commit | what failed |\n|---|---|---|')
out += ['| %s | %s | %s |' % x for x in fixed]
out.append('\n## Known findings (not repaired)\n\n| property | key | what fails |\n|---|---|---|')
out += ['| %s | %s | %s |' % (a, b.replace('key=', ''), t) for a, b, t in known]
out.append('\n## Planted bugs\n\nEach was written from the text of the property and the code; kept whether or not it was caught at first.\n\n| bug | property | needs | caught by |\n|---|---|---|---|')
notes = {}
for l in rd('tools/design.d/seeds.txt').splitlines():
    if ':' in l: a, b = l.split(':', 1); notes[a.strip()] = b.strip()
for d in sorted(glob.glob(root + '/seeded/*/meta.json')):
    m = json.load(open(d)); n = os.path.basename(os.path.dirname(d))
    out.append('| %s | %s | %s | %s |' % (n, m['property'], m['needs'].replace('|', '/'), notes.get(n, m['property'])))
extra = rd('tools/design.d/99-end.md')
if extra: out.append('\n' + extra)
open(root + '/DESIGN.md', 'w').write('\n'.join(out) + '\n')

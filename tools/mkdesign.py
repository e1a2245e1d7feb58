"""DESIGN.md from tools/design_body.md, KNOWN_FINDINGS and the planted bugs."""
import glob, json, os, re
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
s = open(R + '/tools/design_body.md').read()
fx = '\n'.join('| %s | %s | %s |' % m for m in re.findall(r'fixed: property=(\S+) (\S+) (.*)', open(R + '/KNOWN_FINDINGS').read()))
rows = ['| bug | property | needs | caught by |', '|---|---|---|---|']
by = json.load(open(R + '/tools/caught.json'))
for f in sorted(glob.glob(R + '/seeded/*/meta.json')):
    m, n = json.load(open(f)), f.split('/')[-2]
    c = lambda x: x.replace('|', '/').replace('\n', ' ')
    rows.append('| %s | %s | %s | %s |' % (n, m['property'], c(m['needs']), by.get(n, '?')))
open(R + '/DESIGN.md', 'w').write(s.replace('@FIXES@', fx).replace('@SEEDED@', '\n'.join(rows)))

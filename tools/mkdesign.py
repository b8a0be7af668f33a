"""fill the table of planted bugs in DESIGN.md (between the markers)"""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ['| bug | property | needs | breaks |', '|---|---|---|---|']
for b in sorted(os.listdir(V + '/seeded')):
    m = json.load(open('%s/seeded/%s/meta.json' % (V, b)))
    rows.append('| %s | %s | %s | %s |' % (b, m['property'], m['needs'].replace('|', '/'), m['what_it_breaks'].replace('|', '/')))
p = V + '/DESIGN.md'
s = open(p).read()
block = '<!-- seeded -->\n' + '\n'.join(rows) + '\n<!-- /seeded -->'
s = s.replace('SEEDTABLE', block) if 'SEEDTABLE' in s else re.sub(r'<!-- seeded -->.*?<!-- /seeded -->', lambda _: block, s, flags=re.S)
open(p, 'w').write(s)
